prop("C06", "Electron-repulsion integral blocks and contractions agree with the full tensor",
     "The full two-electron integral array assembled from its occupied/virtual blocks, and every block cut out of a full array, equal the defining integrals element by element, restricted and unrestricted; contracting two-body density matrices with stored integral blocks gives the same energy as contracting with the full array.",
     ["inputs"], "for every integral value and density matrix, at every occupied/virtual shape, packed or unpacked storage",
     "Tests use real molecules where many blocks are equal by symmetry and compare a total energy.",
     ["vayesta/core/ao2mo/helper.py", "vayesta/core/helper.py"],
     [("get_full_array / get_block / contract_dm2_eris", "vayesta/core/ao2mo/helper.py")])
prop("C07", "Cluster Hamiltonians represent the parent mean field",
     "In every cluster the effective one-body Hamiltonian plus the mean-field potential of the cluster's own electrons equals the Fock matrix in the cluster orbitals (bare interactions, screened interactions, external potential, exchange-divergence correction and spin treatment included); cluster mean fields, MP2 amplitudes and density-fitted integrals exported to a solver reproduce Fock matrix, integrals and energies of the physical orbitals, padding or compressing changes none of them, integral blocks of stored and freshly computed arrays agree, and coupled-boson Hamiltonians have the couplings of their definition.",
     ["inputs", "configurations"], "for every Fock matrix and integral tensor at small cluster shapes, with and without optional contributions",
     "Tests only see converged mean fields and compare energies.",
     ["vayesta/solver/hamiltonian.py"], [("get_heff / get_fock / get_eris / to_pyscf_mf", "vayesta/solver/hamiltonian.py")])
prop("C08", "Lattice symmetry operations act as a symmetry group on orbitals",
     "Translations, inversions, reflections and rotations applied to orbitals move and sign the basis functions exactly as they move the atoms (through periodic or antiperiodic boundaries), with axis, centre and unit as documented; translations compose additively, the inverse undoes the operation, the identity and boundary phases are respected, symmetry generators of a lattice produce every translation once, and helper functions leave their arguments unchanged.",
     ["inputs", "configurations"], "for every translation vector on small meshes, every boundary condition combination and every orbital coefficient",
     "Tests use one mesh and periodic boundaries.",
     ["vayesta/core/symmetry/operation.py", "vayesta/core/symmetry/tsymmetry.py", "vayesta/core/symmetry/group.py"],
     [("SymmetryTranslation / SymmetryInversion / reorder_atoms", "vayesta/core/symmetry/operation.py")])
prop("C09", "Folding k-points to a supercell and back is exact",
     "Transforming one-body matrices and orbitals from k-points to the Born-von-Karman supercell and back returns the input, keeps hermiticity, traces per cell and real-valuedness for time-reversal-symmetric input, and momentum conservation tables satisfy conservation for every triple of k-points. A folded mean field has real orthonormal orbitals reproducing the Fock and density matrices, the potential of any supercell density matrix, and the attributes of its k-point mean field, which stays unchanged. Three-center and four-center integrals computed from k-points for any supercell orbitals equal the lattice-sum definition, whatever the driver, block size, k-point order and use of symmetry, and powers of the overlap from k-points are those of the supercell overlap.",
     ["inputs", "configurations"], "for every matrix, orbital and integral value on small k-point meshes",
     "Tests fold converged mean fields of one or two meshes.",
     ["vayesta/core/foldscf.py", "vayesta/core/ao2mo/kao2gmo.py", "vayesta/core/ao2mo/helper.py", "vayesta/core/eris.py", "vayesta/core/qemb/qemb.py"], [("k2bvk / bvk2k, fold_mos and folded mean fields", "vayesta/core/foldscf.py"), ("kao2gmo_cderi", "vayesta/core/ao2mo/kao2gmo.py"), ("get_kconserv", "vayesta/core/ao2mo/helper.py")])
prop("C10", "Fragment and environment orbitals always partition the system",
     "Selecting atoms, shells or orbitals by number or label gives a fragment of exactly these local orbitals with all other ones as its environment, together an orthonormal basis; local (Lowdin, intrinsic, projected atomic) orbitals are orthonormal and the intrinsic ones contain the occupied space; fragments of different atoms are disjoint; active spaces around the Fermi level have the requested orbitals and electrons or are refused; secondary fragments come in cancelling pairs with the requested threshold; the orthogonality and occupied, virtual and total completeness the library reports are true exactly when they hold.",
     ["inputs", "configurations"], "for every orthonormal orbital set, occupation and selection of atoms/orbitals in small systems",
     "Tests run a few molecules with the default atom lists.",
     ["vayesta/core/fragmentation/fragmentation.py", "vayesta/core/fragmentation/ufragmentation.py", "vayesta/core/fragmentation/iao.py", "vayesta/core/fragmentation/iaopao.py", "vayesta/core/fragmentation/sao.py", "vayesta/core/fragmentation/cas.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py"],
     [("add_*_fragment, get_env_coeff, symmetric_orth", "vayesta/core/fragmentation/fragmentation.py"), ("_check_fragmentation", "vayesta/core/qemb/qemb.py"), ("add_cas_fragment", "vayesta/core/fragmentation/cas.py")])
prop("C11", "Fragment selection and symmetry families are exact",
     "Asking an embedding for fragments with attribute, option and flag requirements returns all and only the fragments that satisfy every requirement, in registration order; symmetry parents and children are mutually consistent, each symmetry group contains every image exactly once (also images of images), and images and copies inherit solver, flags, options and owning process.",
     ["inputs", "histories"], "for every assignment of attributes/options/flags to the fragments and every requirement combination",
     "Tests only filter on one attribute at a time.",
     ["vayesta/core/qemb/qemb.py"], [("get_fragments / get_symmetry_parents / get_symmetry_children", "vayesta/core/qemb/qemb.py")])
prop("C12", "Bath construction keeps a complete orthonormal orbital basis",
     "Cluster and frozen orbitals built for a fragment (DMET, full, energy-weighted, distance or second-order natural-orbital bath, any mixture for occupied and virtual space) form an orthonormal basis of the full orbital space whose active part contains the fragment; the occupied (virtual) ones are eigen-spaces of the mean-field density with occupation two (zero), active ones diagonalise the Fock matrix if asked; exactly the orbitals beyond the entanglement, coupling or distance threshold are kept, natural orbitals diagonalise the projected second-order density of the environment, and the number of cluster electrons follows from the occupied orbitals.",
     ["inputs", "configurations"], "for every entanglement angle, Fock matrix, integral value and rotation of small systems and every threshold and truncation choice",
     "Tests compare energies of a few molecules at fixed thresholds.",
     ["vayesta/core/bath/dmet.py", "vayesta/core/bath/bno.py", "vayesta/core/bath/full.py", "vayesta/core/bath/ewdmet.py", "vayesta/core/bath/r2bath.py", "vayesta/core/qemb/fragment.py", "vayesta/core/qemb/ufragment.py", "vayesta/core/linalg.py", "vayesta/core/util.py"],
     [("DMET bath", "vayesta/core/bath/dmet.py"), ("MP2 natural orbitals", "vayesta/core/bath/bno.py"), ("make_bath / make_cluster / canonicalize_mo", "vayesta/core/qemb/fragment.py"), ("recursive_block_svd", "vayesta/core/linalg.py")])
prop("C13", "Natural-orbital truncation keeps exactly what the threshold says",
     "For every truncation rule the number of kept bath orbitals is the documented function of the sorted occupation numbers: kept orbitals are the most occupied ones, kept plus discarded orbitals are all of them, tightening the threshold never removes an orbital, and a fixed number is honoured.",
     ["inputs", "configurations"], "for every non-increasing occupation list, electron counts and threshold value",
     "Tests use single thresholds on single molecules.",
     ["vayesta/core/bath/bno.py"], [("BNO_Threshold.get_number / truncate_bno", "vayesta/core/bath/bno.py")])
prop("C14", "Memory blocking never changes results",
     "Splitting work into blocks limited by available memory covers every index exactly once in order, and the second-order amplitudes and densities used to build the bath are identical for every block size.",
     ["inputs", "configurations"], "for every range, block size and memory limit, and every integral value at small sizes",
     "Tests have small systems that always fit into one block.",
     ["vayesta/core/util.py", "vayesta/core/bath/bno.py"], [("brange / split_into_blocks", "vayesta/core/util.py"), ("_make_t2 blocked loop", "vayesta/core/bath/bno.py")])
prop("C15", "Global amplitudes assembled from fragments are the democratic sum",
     "When every fragment holds a projection of one common wave function, assembling the global amplitudes from the fragments returns that wave function exactly, in any of the supported settings (restricted/unrestricted, symmetrised or not, with symmetry-related fragments or explicit ones).",
     ["inputs", "configurations"], "for every amplitude value and every option combination at small sizes",
     "Tests compare only final energies.",
     ["vayesta/ewf/amplitudes.py"], [("get_global_t1/t2_rhf/uhf", "vayesta/ewf/amplitudes.py")])
prop("C16", "Every route to the embedded one-body density matrix agrees",
     "The one-body density matrix of the embedded wave function is the same whichever assembly route or performance option is chosen (global amplitudes, per-fragment-pair assembly, screening that discards only zero overlaps, late or early symmetrisation, symmetry on or off), honours the requested or default choice of T in place of Lambda amplitudes, mixed solvers included, and for full-system clusters equals the density matrix of the underlying wave function; clusters contain the occupied and virtual part of their fragment.",
     ["inputs", "configurations"], "for every fragment amplitude value and option combination on small fragmentations",
     "Tests compare the routes on a single water molecule and default options.",
     ["vayesta/ewf/rdm.py", "vayesta/ewf/urdm.py"], [("make_rdm1_ccsd_global_wf and slow reference", "vayesta/ewf/rdm.py")])
prop("C17", "Two-body density matrices and cumulants reproduce wave function and energy",
     "The embedded two-body density matrix from global amplitudes is that of the wave function with those amplitudes; the sum of fragment cumulants plus the one-body part is, for full-system clusters, the density matrix of the underlying wave function with every option (exact or approximate cumulant, T for Lambda amplitudes, given or own one-body matrix, MO or AO basis), and each fragment's cumulant energy is the contraction of its cumulant with the bare integrals.",
     ["inputs", "configurations"], "for every fragment amplitude value on small fragmentations",
     "Tests check single numbers for few molecules.",
     ["vayesta/ewf/rdm.py", "vayesta/ewf/ewf.py", "vayesta/ewf/fragment.py"], [("make_rdm2_*, get_dm_energy", "vayesta/ewf")])
prop("C18", "Fragment energies add up to the system energy",
     "With a complete, disjoint fragmentation the fragment contributions (projected-amplitude and density-matrix partitioned) sum to the total correlation or DMET energy of the common wave function; the partitioned density matrices likewise sum to the full ones.",
     ["inputs", "configurations"], "for every amplitude, integral and density-matrix value and every orthogonal fragment choice at small sizes",
     "Tests compare totals on few molecules with default settings.",
     ["vayesta/ewf/fragment.py", "vayesta/ewf/ufragment.py", "vayesta/core/qemb/fragment.py", "vayesta/core/qemb/ufragment.py", "vayesta/core/qemb/rdm.py", "vayesta/core/qemb/qemb.py"],
     [("get_fragment_energy, get_fragment_dmet_energy", "vayesta/ewf/fragment.py"), ("democratic partitioning", "vayesta/core/qemb/rdm.py")])
prop("C19", "Correlation functions match their definition",
     "Spin-spin and number/charge correlation functions between atomic or fragment projectors equal the expectation values computed from the density matrices, for restricted and unrestricted, with or without the two-body part, are symmetric in the two sites, and sum over all sites to the total-operator value.",
     ["inputs"], "for every density matrix and projector at small sizes",
     "Tests evaluate a few molecules where spin symmetry makes most terms vanish.",
     ["vayesta/misc/corrfunc.py", "vayesta/core/qemb/corrfunc.py"], [("spinspin_z / chargecharge", "vayesta/misc/corrfunc.py")])
prop("C20", "Lattice models encode the stated Hamiltonian",
     "Hubbard lattices of any size, shape, boundary condition and tiling (at least three sites along a periodic direction) have a symmetric hopping matrix connecting exactly the sites whose coordinates are nearest neighbours with the stated amplitude and boundary sign, invariant under lattice translations, on-site interaction exactly U, and every integral, density-fitting and mean-field route agrees with those definitions; tiling only permutes the sites.",
     ["inputs", "configurations"], "for all hopping/interaction values and every lattice size, boundary and tile up to a bound",
     "Tests use a few fixed lattices.",
     ["vayesta/lattmod/latt.py", "vayesta/lattmod/bethe.py"], [("Hubbard1D/Hubbard2D/LatticeMF", "vayesta/lattmod/latt.py")])
prop("C21", "Chemical-potential search is sound",
     "When the chemical-potential optimisation reports convergence, the electron-number error at the returned potential is within the requested tolerance, for any response function, the error belongs to the potential it was asked for and the results left behind are those of the last potential; it always terminates, and failure is an exception or a result marked not converged. All arguments of the outer kernel reach every fragment calculation.",
     ["inputs", "histories"], "for every response function (arbitrary value at each evaluated point) within an iteration bound",
     "Tests only use well-behaved molecules.",
     ["vayesta/misc/cptbisect.py"], [("ChempotBisection", "vayesta/misc/cptbisect.py")])
prop("C22", "Self-consistency updates preserve their parametrisation",
     "Flattening and restoring parameters is exact, the first update of any mixing scheme returns its input, mixing and extrapolation keep fixed points fixed; the correlation potential fitted in self-consistent DMET is the stated function of the parameters, block structured by fragments and symmetric, fitted to the density matrices given per spin; the self-consistency loops perform update and test in the documented order and report convergence only when the last change is below tolerance; p-DMET and Brueckner mean fields have exactly the stated occupied space.",
     ["inputs", "histories"], "for every potential/density value and every set of fragment sizes up to a bound",
     "Tests run a few model systems to convergence only.",
     ["vayesta/dmet/updates.py", "vayesta/dmet/dmet.py", "vayesta/dmet/fragment.py"], [("Update / MixUpdate / DIISUpdate", "vayesta/dmet/updates.py")])
prop("C23", "Distributed execution is equivalent to serial execution",
     "For any number of processes and fragments, each fragment is owned by exactly one process, all processes agree on the owner and on identifiers, reductions and broadcasts give every (or the target) process the same result as a serial run for arrays of every shape, shared dictionaries return what was stored, and no interleaving of the processes deadlocks or loses a message.",
     ["schedules", "configurations"], "for every process count, rank and fragment count up to a bound, and every value reduced",
     "The test-suite has no MPI run at all.",
     ["vayesta/mpi/interface.py", "vayesta/core/qemb/register.py"], [("MPI_Interface", "vayesta/mpi/interface.py"), ("FragmentRegister", "vayesta/core/qemb/register.py")])
prop("C24", "Tensor helper routines obey their algebraic definitions",
     "The shared array helpers (extended einsum notation, chained products, axis decompression, antisymmetrised permutations, spin-generic algebra, orbital sign conventions, nested attribute access, temporary attribute replacement, result caches) return what the corresponding definition prescribes and do not modify their arguments unless asked to.",
     ["inputs"], "for every array content at small shapes and every supported notation",
     "Tests evaluate single random arrays for part of the helpers.",
     ["vayesta/core/util.py", "vayesta/core/spinalg.py", "vayesta/core/linalg.py", "vayesta/core/helper.py"],
     [("einsum, dot, decompress_axes, permutations_with_signs", "vayesta/core/util.py")])
prop("C25", "Compiled integral-transformation kernels compute their definition",
     "The compiled kernels used for density-fitted exchange and integral transformations compute the documented contraction, touch no memory outside their arguments and give the same result for every thread count and size.",
     ["inputs", "configurations"], "for every input value at small sizes (including 1)",
     "Tests only run them inside converged periodic calculations.",
     ["vayesta/libs/core/src/j3c_jk.c", "vayesta/libs/core/src/j3c_kao2gmo.c"], [("C kernels", "vayesta/libs")],
     technique="symbolic execution of the LLVM IR of the C kernels (clang, compiled from the repository on every run) over solver variables; z3 decides the negated property")
prop("C26", "Options resolve deterministically and without leaking",
     "Options given to an embedding or fragment override defaults at exactly the requested keys, unknown keys (also inside nested bath or solver options) are rejected, nested options merge instead of replacing, changing an embedding's options changes its fragments, and changing one object's options never changes those of another fragment, copy, embedding or the class defaults. Bath and solver options reach the bath or solver they are meant for, an occupied- or virtual-specific value taking precedence over the common one.",
     ["inputs", "histories"], "for every option value and every sequence of up to two (thorough: three) option changes, copies and couplings",
     "Tests set one or two options and look at energies, which rarely depend on the option that was lost.",
     ["vayesta/core/util.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py", "vayesta/core/bath/r2bath.py", "vayesta/ewf/fragment.py"],
     [("OptionsBase", "vayesta/core/util.py"), ("change_options", "vayesta/core/qemb/qemb.py"), ("Fragment.__init__, copy, _get_bath_option, make_bath, make_cluster", "vayesta/core/qemb/fragment.py")])


prop("C27", "Electron-boson FCI solves exactly the stated Hamiltonian",
     "The electron-boson solvers (restricted, unrestricted) build, contract and diagonalise the Hamiltonian with all one-electron, electron-electron, boson energy and electron-boson coupling terms, truncated at the chosen boson number: the contraction equals the second-quantised operator on every vector, boson creation, annihilation and number operators act as defined, the density matrices (fermionic, bosonic, mixed, with and without the polaritonic shift, with and without bosons) are the expectation values of the vector, any number of roots can be asked for, and the zero-phonon (polaritonic shift) adjustment of Hamiltonian and couplings changes the operator only by the stated constant.",
     ["inputs"], "for every integral, coupling, boson energy and vector; numbers of orbitals, electrons, modes and phonons from a small list",
     "Tests compare energies of a few systems, in which most of the density-matrix and shift terms do not appear.",
     ["vayesta/solver/eb_fci/ebfci.py", "vayesta/solver/eb_fci/ebfci_slow.py", "vayesta/solver/eb_fci/uebfci_slow.py", "vayesta/solver/ebfci.py", "vayesta/solver/hamiltonian.py"],
     [("contract_all, contract_ep, make_rdm1, make_rdm12, make_eb_rdm, kernel", "vayesta/solver/eb_fci/ebfci_slow.py"), ("contract_all, make_rdm12s", "vayesta/solver/eb_fci/uebfci_slow.py"), ("EB_EBFCI_Solver.kernel, EB_UEBFCI_Solver", "vayesta/solver/ebfci.py"), ("EB_RClusterHamiltonian", "vayesta/solver/hamiltonian.py")])

prop("C28", "Tailored and externally corrected coupled cluster use the exact coupling terms",
     "The corrections to singles and doubles from triples and quadruples of fragment wave functions equal the connected projected Schroedinger equation <D|H exp(T)|0>, restricted and unrestricted; the corrections assembled from several fragments are the sum of the fragment contributions, each projected (0, 1 or 2 indices) and rotated into the cluster, with fragment- or cluster-level Coulomb integrals as asked for; tailoring replaces exactly the part of the amplitudes inside the fragments (so tailoring with the solver's own wave function changes nothing), delta-tailoring adds exactly the difference, the active-space amplitudes of tailored CCSD are kept exactly, and every tailoring or correction option asked for is in effect in the coupled-cluster iterations.",
     ["inputs", "configurations"], "for every amplitude, integral and orthogonal overlap between fragments and clusters; numbers of orbitals and fragments from a small list",
     "Tests compare total energies of a few molecules, most with one fragment or symmetry that hides missing terms.",
     ["vayesta/solver/coupling.py", "vayesta/solver/ccsdtq.py", "vayesta/solver/ext_ccsd.py", "vayesta/solver/tccsd.py", "vayesta/ewf/fragment.py"],
     [("t_residual_rhf, t_residual_uhf, t2_residual_rhf_t3v, t2_residual_uhf_t3v", "vayesta/solver/ccsdtq.py"), ("_get_delta_t_for_extcorr, externally_correct, tailor_with_fragments, _get_delta_t_for_delta_tailor", "vayesta/solver/coupling.py"), ("TRCCSD_Solver.get_callback", "vayesta/solver/tccsd.py"), ("extRCCSD_Solver.get_callback", "vayesta/solver/ext_ccsd.py")])
