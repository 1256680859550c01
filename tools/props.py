"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ATOM, HELP, TERM, IO, UTIL, TS, WIG, ENV, GRO, LIN, SPEC = (
    'atomtoolkit/' + f for f in ('atom.py', 'atom_helpers.py', 'term.py', 'IO.py', 'util.py', 'transition_strengths.py',
                                 'wigner.py', 'environment.py', 'render/grotrian.py', 'render/lineshapes.py',
                                 'render/spectra.py'))
P = []


def prop(id, title, statement, over, quant, cant, files, mech, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, cant=cant, files=files, mech=mech,
                  level_note=level_note, technique=technique))


T_MODEL = 'model-based property testing (Hypothesis operation sequences against a reference model)'
T_REF = 'property-based testing (Hypothesis) against an independent reference computation'
T_META = 'property-based testing (Hypothesis) with metamorphic/differential relations'
T_RT = 'property-based testing (Hypothesis) with a round-trip oracle'
FEW = 'The tests build one or two fixed atoms and look at a few values; '

prop('C01', 'Every documented key of a level reaches that level',
     'In any atom, a level is reached as the very same object by its full name, by every alias it was given (when it was added or later, on a level or on a sublevel), by its rank in energy as a (possibly negative) integer or slice, and a sublevel by its full name ending in F=, F= mF= or (when I=0) mJ=, or by indexing down from its parents, including mJ= when I=0. '
     'Ranks follow the current energies, and the length, iteration, keys, values and name list of the level container describe exactly the levels in the atom. A name that does not exist raises KeyError.',
     ['inputs', 'histories'], 'all atoms, couplings, nuclear spins, aliases and key forms',
     FEW + 'the key grammar has to work for every name, spin and energy order.', [HELP, ATOM],
     [('LevelStructure.__getitem__', HELP), ('BaseLevel.__getitem__', ATOM), ('BaseLevel.alias', ATOM)],
     'Random atoms with LS/JJ/JK/LK terms, random spins and energies; identity of the object reached by each key form is compared with the object that was added.', T_MODEL)

prop('C02', 'Every documented key of a transition reaches that transition',
     'A transition is reached as the same object by its pair of level names in either order, by a pair of energy ranks, by a pair of level objects, or by its alias, whatever order levels and transitions were added in; its components are reached by the pair of sublevel names (F=, F= mF=, and mJ= when I=0), again in either order, or by sublevel objects. '
     'What is returned always connects exactly the two (sub)levels that were asked for. A pair that is not connected by a transition, or by an allowed component of one (two of different depth, such as a level and a sublevel, never are), raises KeyError.',
     ['inputs', 'histories'], 'all atoms, insertion orders, key forms and endpoint orders',
     FEW + 'which order levels were inserted in, and which endpoint is named first, are not varied.', [HELP, ATOM],
     [('TransitionStructure.__getitem__', HELP), ('BaseTransition.__getitem__', ATOM)],
     'Random atoms and transitions added in random order; all ordered pairs of levels and a sample of sublevel pairs are looked up through every key form and compared with a model of which pairs are connected.', T_MODEL)

prop('C03', 'Hyperfine and Zeeman ladders are complete and carry the right numbers',
     'In an atom with nuclear spin I, a level with angular momentum J has exactly one hyperfine sublevel for every F from |J-I| to J+I in integer steps, and each of those exactly one Zeeman sublevel for every mF from -F to F, (2J+1)(2I+1) states in total. '
     'Each sublevel keeps the configuration, term and J of its level, adds its own F and mF, is named after them, and belongs to the right parent, manifold and atom. '
     'This holds whether sublevels are made on demand or up front, and a level acts as a mapping of its sublevels whose length, iteration, keys, values, items and indexing agree.',
     ['inputs', 'configurations'], 'all J and I up to 9/2, all couplings, eager or lazy population',
     FEW + 'completeness has to hold for every (I, J), half-integer or integer.', [ATOM, TERM],
     [('EnergyLevel.populate_sublevels', ATOM), ('HFLevel.populate_sublevels', ATOM), ('make_term_copy', TERM)],
     'Random (I, J, term) atoms; the sublevel tree is compared with an independently enumerated tree.', T_REF)

prop('C04', 'Hyperfine energies follow the A, B, C Hamiltonian',
     'The shift of a hyperfine sublevel from its level is the first-order energy of the magnetic dipole (A), electric quadrupole (B, only for I,J>=1) and magnetic octupole (C, only for I,J>=3/2) interactions, with the stretched state F=I+J at A*I*J + B/4 + C. '
     'The (2F+1)-weighted mean of the shifts vanishes for any coefficients, and the absolute energy of a sublevel is always that of its level plus its shift, in hertz or as a quantity, following any later change of the coefficients or of the level.',
     ['inputs', 'histories'], 'all I, J up to 9/2, all coefficients, all edits of coefficients and levels',
     FEW + 'no test varies I, J or uses B and C.', [ATOM],
     [('HFLevel.compute_hf_shift', ATOM), ('HFLevel.level_Hz', ATOM)],
     'Shifts compared with matrix elements of the interaction operators computed in exact rational arithmetic from (I.J), plus barycentre and stretched-state laws.', T_REF)

prop('C05', 'Zeeman energies are linear in mF and the field, with the right g-factor',
     'At magnetic field B each Zeeman sublevel lies gF*mF*mu_B*B + q*B^2 from its hyperfine level, where q is the quadratic coefficient (Hz/G^2) set on that sublevel and gF = gJ*[F(F+1)+J(J+1)-I(I+1)]/[2F(F+1)], zero for F=0, with gJ the g-value of its level. '
     'A change of the field, given in any unit that is convertible to gauss, takes effect at once on every sublevel of the atom; at B=0 all mF of a hyperfine level coincide with it, and the mF-summed linear shift is always zero.',
     ['inputs', 'histories'], 'all I, J up to 9/2, g-values, fields in any unit, sequences of field changes',
     FEW + 'one field value is tested.', [ATOM],
     [('ZLevel.shift_Hz', ATOM), ('HFLevel.compute_gF', ATOM), ('Atom.B', ATOM)],
     'Random atoms, sequences of field settings in several units; every Zeeman energy compared with the formula evaluated independently.', T_REF)

prop('C06', "Setting a sublevel's energy moves its whole manifold rigidly",
     'Assigning an absolute energy, in any unit that is convertible to a frequency, to a level or to one of its hyperfine or Zeeman sublevels puts that (sub)level at exactly that energy. '
     'It does so by moving the manifold it belongs to as a whole: all spacings inside the manifold stay as they were, and no other manifold moves.',
     ['inputs', 'histories'], 'all atoms, sublevels, target energies, units and sequences of assignments',
     FEW + 'assignments are not made through every depth and unit.', [ATOM],
     [('BaseLevel.level setter', ATOM), ('HFLevel.level setter', ATOM)],
     'Random sequences of assignments at random depth and unit; all (sub)level energies of the atom compared with a model after each.', T_MODEL)

prop('C07', 'Levels stay consistent with all set transition frequencies',
     'After any sequence of adding transitions with set frequencies and of setting frequencies again, as long as the set transitions form no closed loop, every transition with a set frequency (zero included) has exactly that frequency, with the level that was higher still on top. '
     'Only levels linked to the changed transition through transitions with set frequencies may move, and the lowest level of each linked group stays where it is. '
     'Closing a loop with a frequency that fits the others gives no warning, and with one that does not fit gives a warning.',
     ['histories', 'inputs'], 'all atoms, all sequences of frequency assignments on forests of transitions, plus loop-closing steps',
     FEW + 'only single assignments are tested, never a history of them over a shared level.', [ATOM],
     [('Atom.enforce_consistency', ATOM), ('Transition.set_frequency', ATOM), ('Atom.add_transition', ATOM)],
     'Random histories over random atoms; after every step all set frequencies, unlinked levels and the group anchor are compared with the recorded history.', T_MODEL)

prop('C08', 'Setting the frequency of any component makes it so',
     "Setting the frequency of a transition between manifolds that do not overlap, or of any of its hyperfine or Zeeman components, in any unit that is convertible to a frequency (frequency, wavelength, wavenumber, energy), makes that transition's frequency equal to it. "
     'The spacings between the components of the transition do not change, and neither do the shifts of any sublevel. A transition between levels can also be set to zero, and apart again.',
     ['inputs', 'histories'], 'all atoms with hyperfine/Zeeman structure, components, target frequencies, units and sequences',
     FEW + 'only frequencies in hertz on top-level transitions are set.', [ATOM],
     [('HFTransition.set_frequency', ATOM), ('ZTransition.set_frequency', ATOM), ('Transition.set_frequency', ATOM)],
     'Random components at random depth set to random frequencies in random units; read-back and component spacings checked after each.', T_MODEL)

prop('C09', 'Transition frequency, wavelength, orientation and name',
     'A transition or component has the absolute energy difference of its two (sub)levels as its frequency (in hertz and as a quantity), c/frequency as its wavelength in nanometres, and the more and less energetic of the two (when it is made) as its upper and lower level, in whichever order they were given. '
     'Frequency and wavelength follow every later change of the levels, hyperfine coefficients or field. Its linewidth is the A coefficient it was given converted to hertz, or none, and its default name joins the names of the two levels in the order they were given.',
     ['inputs', 'histories'], 'all pairs of levels and components, in both orders, and later edits',
     FEW + 'one ordering and unit per test.', [ATOM],
     [('BaseTransition.freq', ATOM), ('BaseTransition.wl', ATOM), ('BaseTransition.__init__', ATOM)],
     'Random pairs of (sub)levels and edits; all attributes recomputed independently.', T_REF)

prop('C10', 'Selection rules of fine-structure transitions',
     'A transition between two different levels is E1-allowed exactly when the parities differ and a rank-1 operator can connect their J values (|J-J\'|<=1<=J+J\'), M1-allowed exactly when the parities agree and the same rank-1 condition holds, and E2-allowed exactly when the parities agree and a rank-2 operator can connect them (|J-J\'|<=2<=J+J\'). '
     'The verdict does not depend on the order of the levels, on energies, or on whether the levels are in an atom. A level with itself is never E2-allowed.',
     ['inputs'], 'all pairs of levels with J up to 15/2 (both integer or both half-integer), both parities, all couplings',
     FEW + 'a handful of pairs is tested.', [ATOM],
     [('Transition.transition_allowed', ATOM), ('Term.parity', TERM)],
     'Truth table over random pairs compared with the triangle rule; every (J, J\', parity) combination is enumerated.', T_REF)

prop('C11', 'Hyperfine components: exact set, strengths and sum rules',
     "The components of a transition allowed by exactly one of E1, M1 and E2 are exactly the pairs of hyperfine sublevels for which the 6j symbol {J J' k; F' F I} of the multipole's rank k is non-zero, each once. "
     "If the transition has an A coefficient, each component's relative strength is (2F+1)(2F'+1){J' F' I; F J k}^2 and its A is the transition's A times that, so the strengths from one F' sum to (2F'+1)/(2J'+1), and all of them to 2I+1. "
     'The transition acts as a mapping of its components whose length, iteration, keys, values, items and indexing by short names (of the sublevels of its lower and of its upper level, or the other way around where that names no other component) agree. '
     'All of this also holds when the hyperfine structures of the two levels overlap. The components of a transition allowed as both M1 and E2 include every pair with a non-zero 6j symbol of rank 1, with the strengths and sums of k=1; any further ones have a non-zero symbol of rank 2 and strength zero.',
     ['inputs'], 'all I up to 9/2 and allowed J pairs up to 9/2, E1/M1/E2, both orders of levels',
     FEW + 'no sum rule is tested and only a few spins occur.', [ATOM, WIG],
     [('HFTransition.compute_linewidth', ATOM), ('HFTransition.transition_allowed', ATOM), ('Transition.populate_subtransitions', ATOM)],
     'Components compared with an independent exact-rational 6j implementation and with the sum rules.', T_REF)

prop('C12', 'Zeeman components: exact set, strengths and sum rules',
     "The Zeeman components of a hyperfine component of a transition allowed by exactly one of E1, M1 (rank k=1) and E2 (k=2) are exactly the pairs of Zeeman sublevels with a non-zero 3j symbol (F k F'; -mF q mF') for some q, each once. "
     "If the transition has an A coefficient, each one's relative strength is the square of that 3j symbol and its A is the hyperfine component's A times that, so the strengths from one mF sum to 1/(2F+1) and over all pairs to 1. Each is allowed by the same multipole. All of this also holds when the structures of the two levels overlap, and (k=1) for a transition from a level to itself. Of a component allowed as both M1 and E2, every pair with a non-zero 3j symbol of rank 1 is a component, with the strengths and sums of k=1; any further ones have a non-zero symbol of rank 2 and strength zero.",
     ['inputs'], 'all I up to 9/2 and allowed J pairs up to 9/2, E1/M1/E2, both orders of levels',
     FEW + 'no sum rule is tested and only a few spins occur.', [ATOM, WIG],
     [('ZTransition.compute_linewidth', ATOM), ('ZTransition.transition_allowed', ATOM), ('HFTransition.populate_subtransitions', ATOM)],
     'Components compared with an independent exact-rational 3j implementation and with the sum rules.', T_REF)

prop('C13', 'Branching ratios and lifetimes follow from the A coefficients',
     'The branching ratios of a level go to exactly the levels below it that it has a transition to, are proportional to the A coefficients in whatever units those were given, and sum to 1; the levels linked to a level are exactly the other ends of its transitions, paired with those transitions. '
     'The lifetime of a level is 2*pi over the sum of the A coefficients of its downward transitions, infinite if there are none. All of this can be asked by name, alias or energy rank, and asking for branching ratios when a downward transition has no A raises ValueError.',
     ['inputs', 'histories'], 'all atoms, transition graphs, A coefficients and units, key forms',
     FEW + 'one level with fixed A values is tested.', [ATOM],
     [('Atom.compute_branching_ratios', ATOM), ('Atom.state_lifetime', ATOM), ('Atom.linked_levels', ATOM)],
     'Random graphs of transitions with A in random units; ratios and lifetimes recomputed independently.', T_REF)

prop('C14', 'Saving and loading an atom loses nothing',
     'Loading a saved atom gives an atom with the same name, nuclear spin, field, levels, aliases, coefficients, g-values, energies of all sublevels, and transitions with the same frequencies, A coefficients, set frequencies and components; the saved atom is unaffected. '
     'The loaded atom is independent of the original and keeps working: its keys and aliases lead to its own levels, and setting energies, fields or frequencies on it has the effects it would have had on the original. '
     'The file is the given path, with .atom appended if it does not end in it, and loading a file in which something else was pickled raises IOError.',
     ['inputs', 'histories'], 'all atoms (populated or not), file names, and operations after loading',
     FEW + 'one small atom is saved.', [ATOM],
     [('Atom.save', ATOM), ('Atom.load', ATOM)],
     'Random atoms with random substructure populated; full observable snapshots compared before/after, then the same random operations applied to both.', T_RT)

prop('C15', 'Importing a table of levels loses and invents nothing',
     'Building an atom from a table of levels yields exactly one level per (distinctly named) row, or per row of the first num_levels rows if that is given, with the energy, J, configuration, term, percentages and second component of its row, whatever the index of the table is (and a single term read from a row is its first component). '
     'The g-value of a level is the tabulated one where there is one and the estimated one where there is none. Name, nuclear spin and field are the given ones.',
     ['inputs'], 'all tables in the import format: couplings, missing second components and g-values, num_levels',
     FEW + 'no test builds an atom from a table.', [ATOM, TERM],
     [('Atom.from_dataframe', ATOM), ('EnergyLevel.from_dataframe', ATOM), ('MultiTerm.from_dataframe', TERM)],
     'Random tables; every level of the atom compared with its row.', T_REF)

prop('C16', 'Importing a table of transitions adds exactly the matching ones',
     'Importing a table of transitions into an atom adds a transition for every row whose two levels are both in the atom, between exactly those levels, with the A coefficient of the row (MHz in a csv file) and, if the row has one, its frequency enforced; rows naming unknown levels are skipped without effect. '
     'J may be written as a number or a fraction, an A coefficient or frequency that is blank in a row is taken as not known, and the A column of a csv file may be declared as A or A_coeff.',
     ['inputs'], 'all tables over known and unknown levels, via csv or directly',
     FEW + 'no test imports transitions.', [ATOM, IO],
     [('Atom.populate_transitions_df', ATOM), ('load_transition_data', IO)],
     'Random tables (through csv files and directly) compared with the resulting transition graph.', T_REF)

prop('C17', 'Hyperfine coefficient files round-trip',
     'Writing the hyperfine coefficients of an atom to a file and applying that file to another atom with the same levels gives it the same A, B and C for every level; levels missing from that atom are skipped and levels missing from the file keep their coefficients. '
     'A blank file has one row of zeros per level, and a default A is written for exactly the levels whose A is zero.',
     ['inputs'], 'all atoms, coefficients and subsets of levels',
     FEW + 'no test writes or applies such a file.', [IO],
     [('generate_hf_csv', IO), ('apply_hf_csv', IO)],
     'Random atoms written to a scratch directory and applied to copies with overlapping level sets.', T_RT)

prop('C18', 'Populating transitions finds every allowed pair and nothing else',
     'Populating the transitions of an atom for a choice of E1, M1 and E2 adds a transition between two different levels exactly when one of the chosen types is allowed between them, and removes or replaces none that were there before. '
     'Populating a second time changes nothing, and populating internal transitions adds exactly one transition from every level to itself.',
     ['inputs', 'configurations'], 'all atoms and all eight choices of types, with or without existing transitions',
     FEW + 'population is not tested.', [ATOM],
     [('Atom.populate_transitions', ATOM), ('Atom.populate_internal_transitions', ATOM)],
     'Random atoms with random pre-existing transitions; resulting pairs compared with an independent selection-rule oracle.', T_REF)

prop('C19', 'Term symbols are parsed into the right quantum numbers',
     'A term symbol is recognised as LS, JJ, JK or LK coupled from its notation. The quantum numbers that its notation (and, for JJ, JK and LK, the parent terms in its configuration) spells out are exactly the ones it gets: L and S for LS; the core L, S and J, the outer L and S, and the outer J for JJ or K for JK (a JJ parent that is itself a coupled pair has a J only); the core L and S, the outer L and S, total L and K for LK; and none of the others. '
     'The parity is odd exactly when the term carries an asterisk.',
     ['inputs'], 'all symbols of the four notations with L up to the letter range, any multiplicity, J and K',
     'The tests list 18 fixed symbols; the grammar has to work for every combination of letters, multiplicities, fractions, parities and spacing.', [UTIL, TERM],
     [('get_term_coupling', UTIL), ('get_quantum_nums', UTIL), ('parse_*_term', UTIL)],
     'Symbols are rendered from random quantum numbers by a grammar and parsed back.', T_RT)

prop('C20', 'Terms are equal exactly when they name the same state',
     'Two single terms compare equal exactly when their configuration, term symbol, J, F and mF agree, also if one is wrapped as a multi-component term; two multi-component terms compare equal exactly when they have the same number of components and equal components in order of percentage. '
     "A term's name spells configuration, term, J, F and mF, copies made for sublevels keep everything but the F and mF asked for, and a multi-component term shows the attributes of its leading (highest-percentage) component and contains all components in order of decreasing percentage.",
     ['inputs'], 'all terms, multi-terms, and sublevel copies',
     'The tests compare a few fixed terms.', [TERM],
     [('Term.__eq__', TERM), ('MultiTerm', TERM), ('make_term_copy', TERM)],
     'Random pairs (biased to differ in one field) compared with equality of the generating data.', T_META)

prop('C21', 'Fraction and letter notation convert both ways',
     'Converting a half-integer to its fraction string and back, or a fraction string to a number and back, gives the same value and the canonical string; strings that are already fractions, and missing values, pass through. '
     'Angular momenta and spectroscopic letters convert both ways over the whole letter range, case-insensitively, and anything that is not a half-integer string, letter, or non-negative integer L in range (negative or fractional numbers of any type included) is rejected with an error as documented.',
     ['inputs'], 'all half-integers, signs and number types, all letters',
     'The tests list a dozen values.', [UTIL],
     [('frac_to_float', UTIL), ('float_to_frac', UTIL), ('let_to_l', UTIL), ('l_to_let', UTIL)],
     'Round trips over random half-integers in every accepted type, plus rejected inputs.', T_RT)

prop('C22', 'Changes of coupling scheme are unitary',
     'Expressing a JJ, JK or LK coupled state in LS-coupled states gives squared amplitudes that sum to 1 over exactly the L and S that the parents can form, and states of the same scheme that differ in their intermediate quantum numbers are orthogonal. '
     'The squared amplitudes are those of angular momentum recoupling (9j and 6j symbols), and the readable forms list the same components as percentages under their term symbols.',
     ['inputs'], 'all parent L up to 4, S up to 2, and compatible intermediate numbers',
     'No test touches these conversions.', [TS, UTIL],
     [('JJ_to_LS', TS), ('JK_to_LS', TS), ('LK_to_LS', TS), ('readable_*_to_LS, term_to_LS', UTIL)],
     'Random coupled states; completeness, orthogonality and an independent exact computation of the recoupling coefficients by summing Clebsch-Gordan products.', T_REF)

prop('C23', 'Estimated g-values follow the composition of the term',
     'Where no g-value is given, the estimated one of an LS level is 1 + 1.0023*[J(J+1)+S(S+1)-L(L+1)]/[2J(J+1)], and that of a JJ, JK or LK level is the average of this over its LS composition weighted by the squared amplitudes. '
     'For a level with several components it is the average over them weighted by their percentages, whatever these add up to and even if some are equal; for J=0 it is 0. A given g-value is always used unchanged.',
     ['inputs'], 'all terms in all couplings, with one or several components and any percentages',
     'One LS value is tested.', [ATOM, TS],
     [('EnergyLevel.compute_gJ', ATOM)],
     'Random terms and mixtures; estimate recomputed from independently computed compositions.', T_REF)

prop('C24', 'Wigner symbols are exact and zero where selection rules forbid',
     'The 3j, 6j and 9j symbols agree with their definition for all integer and half-integer arguments: they are zero whenever a triangle, projection or integrality condition is violated (never an error), and equal to the Racah value otherwise. '
     'They have the permutation symmetries and orthogonality relations of Wigner symbols, and repeated evaluation gives the same value.',
     ['inputs'], 'all arguments up to 6 (9j: up to 3), including invalid combinations',
     'No test evaluates a symbol directly.', [WIG],
     [('wignerPicker', WIG), ('wigner3j, wigner6j, wigner9j', WIG)],
     'Differential test against an independent exact-rational implementation of the Racah formulas plus algebraic relations.', T_REF)

prop('C25', 'Tensor matrix elements and geometric strengths are consistent',
     "The strength of component q of a rank-k operator between two Zeeman sublevels is (2F+1)(2F'+1){6j}^2(3j)^2, the square of its matrix element, and summed over all sublevels F', mF' and q it equals 1/(2J+1). "
     'The E1 (M1) and E2 matrix elements for a polarization (and k-vector) are linear combinations of these with the components of the unit polarization (resp. of the traceless symmetric tensor of polarization and k), so for a single (F,mF) to (F\',mF\') line and real orthogonal vectors the strength is the squared magnitude of the matrix element, does not change when the vectors are rescaled or rotated about the quantization axis, and averages over isotropic directions to the same value for every q; the averaged E1, M1 and E2 strengths accordingly weigh all q alike (1/3, 1/3 and 1/5). ',
     ['inputs'], 'all sublevel pairs with I, J up to 7/2, directions given as arrays or tuples',
     'No test covers transition strengths.', [TS],
     [('tkq_mel, tkq_transition_strength', TS), ('E1/M1/E2 *_geom', TS)],
     'Random lines and directions; strengths recomputed from exact Wigner symbols and the spherical tensor components of the vectors.', T_REF)

prop('C26', 'Lineshapes have their defining center, height and width',
     'A Lorentzian has its peak height at its center and half of it at half its full width away; a Gaussian falls to exp(-1/2) of its peak one standard deviation away; both are even about the center, positive, and proportional to the amplitude; a modulated Lorentzian is the sum of Lorentzians at multiples of the modulation frequency weighted by squared Bessel functions of the depth. '
     'A thermal Gaussian has the Doppler standard deviation, frequency times sqrt(kT/mc^2), and a thermal lineshape whose natural and Doppler widths are comparable is the Voigt profile of the two. Every lineshape object evaluates on a symmetric grid of the requested number of points about the center with the same values as its shape function, and a Lorentzian broadened by an A coefficient has the sum of both widths.',
     ['inputs'], 'all centers, widths, amplitudes, depths, temperatures, masses and grids',
     'No test covers lineshapes.', [LIN],
     [('lorentzian, gaussian, mod_lorentzian', LIN), ('LineShape.compute', LIN)],
     'Random parameters compared with closed forms evaluated independently.', T_REF)

prop('C27', 'Plotted spectra show every component at its frequency and strength',
     'Plotting the spectrum of transitions, of their hyperfine components or of their Zeeman components draws one curve per line, peaking at the frequency of that line (in the plotted unit) with its relative strength (times its entry in the amplitude table, if one is given) as height, labelled by its lower and upper sublevel. '
     'Unless it is switched off, one more curve shows the sum of the others on their combined grid. The frequency axis is labelled with the plotted unit. '
     'Curves are black by default, have the colour that a colouring function gives them, or, when coloured by their lower or upper sublevel or by the change of mF, one hue for each value of that property and a different shade for each value of the other. The transitions are left unchanged.',
     ['inputs'], 'all transitions with substructure, lineshapes, units, amplitude tables, with or without total',
     'No test covers plotting.', [SPEC],
     [('plot_transitions', SPEC), ('plot_hyperfine_spectrum', SPEC), ('plot_zeeman_spectrum', SPEC), ('plot_spectrum', SPEC)],
     'The curves are read back from the matplotlib axes (Agg) and compared with the list of lines.', T_REF)

prop('C28', 'Grotrian diagrams draw each level at its energy',
     'Rendering a level draws one horizontal line of the set width at the level\'s energy (as it is when rendering) in THz and at its J (plus the offsets, or at the overrides, that were asked for); in hyperfine style, one line per hyperfine sublevel displaced vertically by its shift times the hyperfine scale, the F=squeeze sublevel having the full width and the others widths in proportion to 2F+1; in Zeeman style one line per Zeeman sublevel, displaced by the hyperfine shift plus the scaled Zeeman shift, ordered left to right by mF with equal steps and filling the width for F=squeeze. '
     'Lines have the colour and line width that were asked for; a level\'s bounding box and brackets enclose its lines, extended by the padding that was asked for (absolute in x, relative to the height in y), and have the colour, transparency, line width and tick length that were asked for; sublevels can be spaced schematically, in equal steps in order of F around the energy of the level. '
     'A transition is drawn as an arrow between the drawn positions of its levels, at the corner, edge or center that was asked for, of the box of the sublevel itself or of the hyperfine level or manifold that was chosen instead. The quick diagram (draw_levels) has a marker for every level at its J and energy and an edge for every transition between two levels. Rendering changes no level, and rendering again draws the same.',
     ['inputs', 'configurations'], 'all atoms and levels, styles, offsets, scales and widths',
     'No test covers diagrams.', [GRO],
     [('Grotrian.add_level', GRO), ('Grotrian.render', GRO)],
     'Segments and arrows are read back from the matplotlib axes (Agg) and compared with positions computed independently.', T_REF)

prop('C29', 'NIST level listings are imported faithfully',
     'Importing a NIST listing gives one row per level (per J, where a level lists several) below the ionization limit, in order, with the energy and its equivalent in hertz, the g-value where there is one, configuration and term without decoration (of a level without a term, the asterisk that gives its parity), the leading percentage (100 where none is given), and the second component with its configuration and term where there is one. '
     'Rows without an energy, the limit itself and everything after it are left out, and the result is the same when it is also saved to a csv file. The listing asked for is that of the species, with all of these columns, energies in inverse centimetres, ordered by term or by energy as requested.',
     ['inputs'], 'all synthetic listings in the NIST csv format over LS and JK terms, missing columns and multi-J rows',
     'No test covers the import (it needs the network); here the download is replaced by generated listings.', [IO],
     [('load_NIST_data', IO)],
     'Listings are rendered from random level data in the NIST csv dialect, fed through the real parser in place of the download, and compared row by row.', T_RT)

prop('C30', 'Looking at an atom never changes it',
     'Reading sublevels, components, energies, frequencies, strengths, linked levels, lifetimes, or any container of an atom, in any order and any number of times, changes no energy, frequency, strength, name, alias, level or transition of it, and gives the same answers every time. '
     'Sublevels and components keep their identity once they have been seen: the same key gives the same object each time.',
     ['histories'], 'all atoms and all orders of read operations',
     FEW + 'the lazy creation of substructure is never exercised in different orders.', [ATOM, HELP],
     [('lazy_compute_sublevels', ATOM), ('lazy_compute_subtransitions', ATOM), ('Atom.linked_levels', ATOM)],
     'The same atom is read by two random programs of read operations; answers are compared between repeats and between orders, with a full snapshot at the end.', T_META)

prop('C31', 'Light fields are normalised and their amplitudes match their intensity',
     'A light field is accepted exactly when its polarization is a unit vector (to 1e-6), complex or real. '
     'Its electric field has the direction of the polarization and the squared magnitude 2*I/(c*eps0), in consistent units whatever units the intensity was given in; its magnetic field is the unit wave vector crossed with it, divided by c.',
     ['inputs'], 'all polarizations, intensities and units',
     'No test covers light fields.', [ENV],
     [('LightField.__init__', ENV), ('LightField.E', ENV)],
     'Random vectors on and off the unit sphere; field compared with the formula in SI units.', T_REF)

prop('C32', 'Level and transition containers behave as a model over any edit history',
     'After any sequence of adding levels and transitions (directly, by key assignment, by append, as pairs of names or levels, again, or together with levels that are not in the atom yet), renaming by alias, and deleting by key, the atom contains exactly the levels and transitions that were added and not deleted, each reachable by name and alias. '
     'Deleting a level removes its transitions and all aliases into it and nothing else; deleting a transition leaves both levels and all other transitions in place. '
     'A pair of levels that was removed can be connected anew, with fresh components. Adding a level again that is still there changes nothing, and it keeps its sublevels.',
     ['histories'], 'all edit histories over small sets of levels',
     FEW + 'no sequences of edits are tested.', [HELP, ATOM],
     [('LevelStructure', HELP), ('TransitionStructure', HELP), ('Atom.add_level, Atom.add_transition', ATOM)],
     'Operation sequences on an atom and on a dictionary model; containers, aliases and reachability compared after every step.', T_MODEL)

prop('C33', 'Building an atom in one go equals building it step by step',
     'Building a full atom from a table of levels gives the same atom as importing the levels, applying the hyperfine file (if one is given and exists), then importing the transition table if there is one or else populating all allowed transitions of the chosen types (E1 only by default, or all types if the table of transitions is explicitly declined), and finally adding the internal transitions.',
     ['inputs', 'configurations'], 'all tables of levels, with and without hyperfine file, transition table and choice of types',
     'No test covers it.', [IO],
     [('generate_full_from_dataframe', IO)],
     'Random tables and option combinations; full snapshots of both atoms compared.', T_META)

prop('C34', 'Results do not depend on the units inputs are given in',
     'Giving a level energy, hyperfine coefficient, A coefficient, transition frequency or magnetic field in another convertible unit (Hz to THz, wavenumber, wavelength, electronvolt; milligauss, gauss, kilogauss) gives an atom with the same energies, frequencies, strengths and shifts, whether the value is given on construction or assigned later, or read from a table or coefficient file. '
     'The quantities that are given are left as they are. Quantities that are read back are convertible to any of those units, with the same physical value, and the exported unit constants, mu_B and c have theirs.',
     ['inputs'], 'all quantities of an atom and all convertible units',
     FEW + 'each test uses one unit.', [ATOM, 'atomtoolkit/__init__.py'],
     [('EnergyLevel.__init__, hfA/hfB/hfC setters', ATOM), ('pint spectroscopy context', 'atomtoolkit/__init__.py')],
     'The same random atom is built with two random choices of units; all energies and frequencies compared.', T_META)

prop('C35', 'Level tables in csv files are read faithfully',
     'Reading levels from a csv file, with a dict that says under which header each column of a level table is found, gives one row per line of the file: the energy in inverse centimetres (whether it is written plainly, in brackets, with a question mark or with its unit) and its equivalent in hertz, and the other declared columns as they are, in whatever order columns are declared or written. '
     'The atom made from it is the one made from the table the file was written from, including second components; and a listing that was imported from NIST and saved, or a table that was read and written again, gives the same rows and the same atom when it is read back.',
     ['inputs', 'configurations'], 'all level tables with energies of 0 or from 1e-4 to 1e7 per centimetre, headers, separators and orders of columns',
     'No test reads a level table.', [IO, TERM],
     [('load_level_data', IO), ('load_NIST_data(save=...)', IO), ('MultiTerm.from_dataframe', TERM)],
     'Random tables are written to csv files with random headers, order and decoration and read back; rows and resulting atoms are compared with the originals.', T_RT)


def subs_of(id):
    """(name, quick, thorough, rule) of every search of a check, read from its source"""
    import ast
    path = os.path.join(HERE, 'pbt', 'checks', id.lower() + '.py')
    out = []
    for node in ast.walk(ast.parse(open(path, encoding='utf-8').read())):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'Sub':
            kw = {k.arg: k.value for k in node.keywords}
            val = lambda k, d: ast.literal_eval(kw[k]) if k in kw else d
            q = val('quick', 100)
            out.append((ast.literal_eval(node.args[0]), q, val('thorough', q * 20), val('rule', ''), 'cases' in kw))
    return out


def design():
    out = []
    for p in P:
        out.append(f"### {p['id']} {p['title']}\n\n*Decided by* {p['technique']}. {p['level_note']}\n\n*Quantified over* {p['quant']}. *Beyond the tests:* {p['cant']}\n")
        for name, q, t, rule, grid in subs_of(p['id']):
            out.append(f"- `{name}` ({'a fixed grid, then ' if grid else ''}{q} cases quick, {t} thorough): {rule}.")
        out.append('')
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path, encoding='utf-8').read()
    a, b = '<!-- properties -->', '<!-- end of properties -->'
    if a in s:
        i, j = s.index(a) + len(a), s.index(b)
        open(path, 'w', encoding='utf-8').write(s[:i] + '\n\n' + '\n'.join(out) + '\n' + s[j:])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'].strip(),
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['cant'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'hook_needed': None}}, ensure_ascii=False) + '\n')
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'pbt', 'checks', p['id'].lower() + '.py'))]
    todo = [p for p in P if p not in done]
    man = {'version': 1, 'setup_cmd': 'bash setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': f"python3 run.py {p['id']}",
                       'thorough_cmd': f"python3 run.py {p['id']} --tier thorough",
                       'technique': p['technique'], 'level': 'exploration',
                       'level_note': p['level_note'] + ' Generated-input search: evidence, not proof; trusts the harness oracle and Hypothesis.'} for p in done],
           'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in todo],
           'notes': 'Property-based testing of the real code in /repo; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    design()


if __name__ == '__main__':
    main()
