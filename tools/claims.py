ENGINE = "abstract interpretation of the current sources into value terms (joins, no execution)"
TRUST = " Trusts the models of Python, numpy, scipy and gymnasium semantics in gemcheck; equality of terms is decided by normalisation and identity testing of the term functions."
CLAIMS = {
    "M01": (
        "abstract interpretation to value terms + symbolic differentiation, term equality",
        "Every Jacobian entry of every motor, load and composed system equals the term derivative of the right-hand side for symbolic parameters, states and inputs." + TRUST,
    ),
    "M02": (
        "abstract interpretation to value terms, residual and power-balance identities",
        "Residuals of the documented voltage/flux/angle/torque equations and the energy balance vanish identically in parameters, states, voltages and speed for all nine machines." + TRUST,
    ),
    "M03": (
        "abstract interpretation to value terms, matrix identity and in-place effect analysis",
        "All motor- and system-level transformations equal the documented matrices, invert each other and leave every passed array unchanged." + TRUST,
    ),
    "M04": (
        "abstract interpretation to value terms, slot-by-slot comparison with a names-to-quantities oracle",
        "Every slot of the vectors returned by simulate and reset of all drive systems, with one to three switching sub-intervals, equals the quantity of its name divided by its own limit, for symbolic states, voltages, angles and pairwise different limits." + TRUST,
    ),
    "M05": (
        "abstract interpretation with component summaries: call-sequence (typestate) and argument-term analysis of one step",
        "Order, number and arguments of the calls on converter, supply and solver in consecutive steps and after reset, for all machines and one to three sub-intervals (five in the thorough tier); and composed with the library's finite converters under a symbolic interlocking time." + TRUST,
    ),
    "M06": (
        "abstract interpretation to value terms, value-range analysis, comparison with reference topology tables",
        "All switching sequences of length two (three for half bridges) of every finite converter and all duty cycles of every continuous converter, symbolic currents and interlocking time; every output is inside the declared space." + TRUST,
    ),
    "M07": (
        "abstract interpretation: parameter propagation through composed converters, systems and environments",
        "Sampling and interlocking time of every leg, judged by announced switching times and output terms after construction, after changing tau, and inside every drive system and environment class." + TRUST,
    ),
    "M08": (
        "abstract interpretation with library integrators as uninterpreted flows; argument and result term comparison",
        "Euler update over one to four sub-steps as terms, arguments handed to the scipy adapters, time/state after integrate, restart from the last state and freshness of returned derivative arrays, for all machines' right-hand sides." + TRUST,
    ),
    "M09": (
        'abstract interpretation to value terms, torque-balance identity per branch, sign and range implications',
        'Torque balance, direction of the static torque and total inertia for symbolic parameters and speeds in every branch, alone and in all nine drive systems; imposed speeds for the three speed-imposing loads.' + TRUST,
    ),
    "M11": (
        'abstract interpretation: flow of configured initial values to solver state slots; value-range implication for random ones',
        'All nine machines and their loads, every single state, all states in several dictionary orders (all subsets in the thorough tier), three consecutive episodes, uniform and normal distributions with symbolic intervals.' + TRUST,
    ),
    "M12": (
        'abstract interpretation: name-to-value flow of limit tables, positivity and bound implications',
        'Every state name of the nine machines alone and together, symbolic user values, load limits, derived values for symbolic parameters, state-space bounds for every combination of converter directions.' + TRUST,
    ),
    "M10": (
        'abstract interpretation to value terms, comparison with supply model terms, range implication',
        'All four supplies with symbolic voltages, parameters, times and currents over several calls and episodes with another supply running alongside; count and range of the voltages on every call.' + TRUST,
    ),
    "E01": (
        'abstract interpretation of the step/reset typestate with recording component summaries',
        'All call histories of step, reset and exchange of components up to a small length, with symbolic violation degree, over all 54 environment classes and the generic environment.' + TRUST,
    ),
    "E02": (
        'abstract interpretation with recording component summaries: call order and argument-term identity',
        'Order, number and argument terms of all component calls in reset and several consecutive steps of two episodes, with symbolic states, references and violations, for several component combinations.' + TRUST,
    ),
    "E03": (
        'abstract interpretation: slot-order flow of state filters into vectors, spaces and names',
        'All environment classes with their own and with permuted and partial state filters, generic environments with pairwise different symbolic limits and states.' + TRUST,
    ),
    "E04": (
        'abstract interpretation to value terms, comparison with constraint and merge definitions',
        'Limit, squared and function constraints, alone and in combinations, symbolic states; product, max and user merges; degree used by step on the full state.' + TRUST,
    ),
    "E05": (
        'abstract interpretation: notification-sequence (typestate) analysis of recorded callback events',
        'All callback positions (callbacks, visualizations, constructor lists) over construct, reset, step and close histories.' + TRUST,
    ),
    "E06": (
        'abstract interpretation of the callback over bounded histories, value-range analysis of the margin',
        'Step and episode update modes, plain and switched generators, symbolic margins and steps, histories of resets and steps beyond the saturation of the margin.' + TRUST,
    ),
    "R01": (
        'abstract interpretation to value terms, interval (value-range) analysis with branch refinement',
        'All six generators with default, scalar and tuple margins, three state ranges, user parameter ranges beyond the margin, several episodes and sub-episodes; combined generators; spaces of all environment classes; symbolic margins for the announced range.' + TRUST,
    ),
    "R02": (
        'abstract interpretation: identity of announced and applied reference terms along call sequences, use-count of trajectory elements',
        'All generators, nested combinations and switching, sub-episode lengths 1 to 5, several episodes, alone and inside the environment (reward and callback arguments).' + TRUST,
    ),
    "R03": (
        'abstract interpretation with part summaries: forwarding, concatenation and delegation terms under symbolic part choices',
        'Multiple and switched generators with up to four parts, all request kinds, symbolic random choices, several super-episode lengths and probabilities; rejection of conflicting parts.' + TRUST,
    ),
    "R04": (
        'abstract interpretation to value terms over named random draws, comparison of the sub-episode terms with the documented waveform and random-walk laws under every assignment of draws to roles',
        'All six random generators with default and user ranges, five margin and state-space combinations, two sub-episodes in each of two episodes; comparison at sampled draws, so agreement is up to the sampled points; the distribution of the draws themselves is not judged (N03).' + TRUST,
    ),
    "E08": (
        'abstract interpretation of observer and environment with module summaries: reported term against observation term per name',
        'Four state filters with and without a physical-system wrapper and an outer gymnasium wrapper, two episodes each; user-defined observers; four shipped environments.' + TRUST,
    ),
    "V04": (
        'abstract interpretation of every environment and motor constructor with default arguments, compared with the component lists, quantities, cycle time and parameter tables parsed from the class documentation',
        'All 54 environment classes, all motors with a parameter table; solver, state order and space bounds of the documentation are not compared (the documentation is schematic there).' + TRUST,
    ),
    "W01": (
        'abstract interpretation to value terms, comparison with the documented blend, interval analysis of the reward',
        'Weights as default, dictionary, list and array, normed or not, biases, powers, gamma and violation rewards with symbolic states, references and degrees; reward range over whole state spaces; all environment classes.' + TRUST,
    ),
    "X01": (
        'abstract interpretation to value terms around a recording system: table/slot correspondence, identity of passed-through services, vector alias (freshness) analysis',
        'All state wrappers alone, bound at construction and later, and stacks of up to four wrappers with symbolic limits, states and machine parameters; noise with two distributions and several buffer lengths; every drive system of the library.' + TRUST,
    ),
    "X02": (
        'abstract interpretation: queue (history) analysis of symbolic actions, identity of transformed action terms',
        'Dead times up to 4 (7 thorough) with five action spaces, default and own reset actions, several episodes, nested; dq action wrappers of all four machine types directly and over five wrapper stacks.' + TRUST,
    ),
    "S01": (
        'random-effect analysis: every draw event of every corpus environment is traced to the seed sequence it descends from, plus an alias-resolving query over all modules for process-wide generators',
        'whole-program abstract execution of 54 default and about 70 configured environments with a symbolic seed; histories of 3-4 episodes' + TRUST,
    ),
    "S02": (
        'object-graph ownership analysis: seed-sequence keys of every generator reachable from an environment after abstract seeding',
        'all default environments plus nested wrappers, combined and switched generators; symbolic seeds, reseeding' + TRUST,
    ),
    "S03": (
        'random-effect analysis: draw keys per episode compared across histories of different episode lengths',
        'histories of 4 episodes, lengths 0-4 (thorough 0-12); symbolic seed and actions' + TRUST,
    ),
    "S04": (
        'non-interference by value numbering: output terms of an episode after dirty histories against a fresh environment',
        'all corpus environments, 5 (thorough 9) steps after 5 (11) dirty histories; symbolic actions for boxes, varied switch states for discrete spaces' + TRUST,
    ),
    "S05": (
        'ownership and effect analysis: writes to caller-owned, default, class-level or module-level objects; object-graph non-interference between instances',
        'all corpus environments, pairs of neighbouring and equal configurations' + TRUST,
    ),
    "V01": (
        'alias-free evaluation of the registration effects of the package import, abstract construction of every registered class',
        'all registered ids, all exported classes, all members of the type enumerations' + TRUST,
    ),
    "V02": (
        'abstract construction of all environment classes with tagged component instances and symbolic parameters, comparison of the resulting object graphs',
        'all environment classes, every constructor argument on its own and all together; one parameter at a time' + TRUST,
    ),
    "V03": (
        'abstract construction, dependence analysis of reward, constraint degree and voltages on states, references and actions',
        'all environment classes with their defaults; one step from the zero initial state for the voltage dependence' + TRUST,
    ),
    "G01": (
        'abstract construction of all combinations; constant-propagated tables; interval analysis of table positions; library-attribute query over the syntax trees',
        '8 motors, 3 tasks, 2 action types, 4 base controllers; states and references symbolic within their limits; lookup tables on a coarse grid of the same parity; every settable attribute of the reachable stages read back' + TRUST,
    ),
    "G02": (
        'non-interference by value numbering: actions after dirty histories and reset against a fresh controller',
        '2 calls before, 2 calls after the reset with symbolic states and references; finite three-phase combinations excluded (known findings of G01)' + TRUST,
    ),
    "G03": (
        'term identities of clipping, anti-windup, base controllers and cascade; interval analysis of actions',
        'symbolic states, references and gains within their limits' + TRUST,
    ),
    "G04": (
        'term identities between controller stages and the machine ODE/torque terms extracted from the same source; constant propagation of the operation point tables',
        'all continuous combinations; tables on a coarse grid; default parameters and PMSM with equal and inverse inductances; operation points selected on a grid of speeds, torques and modulation states' + TRUST,
    ),
    "G05": (
        'typestate/ordering of environment and controller calls over all episode patterns; value numbering with and without plotting',
        '0, 1 and 5 steps with every set of episode ends and maximum length; 2 controller calls with plotting' + TRUST,
    ),
    "Z01": (
        'Non-interference analysis by abstract interpretation: each environment class is executed on symbolic actions and seeds with and without visualizations and the output terms are compared; around every notification and rendering the object graph of the environment is compared element-wise, and writes to handed-over arrays, foreign class/module state and random draws are reported.',
        'All 54 environment classes with dashboard and printer, five with eight visualization set-ups; two episodes per run (5/0/3 steps in the thorough tier); matplotlib is summarised by a stub whose calls have no effect on the environment.' + TRUST,
    ),
    "Z02": (
        'Abstract interpretation of every plot against a reference model of the history: symbolic states, references, rewards and actions are fed through words over reset, step, terminate, render, figure reset, and every line drawn into a stub axis is compared term by term; typestate-style counting of dashboard notifications; lint of all formula labels in the source.',
        '24 histories x all states, actions and plot classes of three environments; dashboards with probe plots of each kind; ring buffer width 4; console: 6 verbosity/frequency pairs over all words of the listed histories, printed text parsed back.' + TRUST,
    ),
    "E07": (
        'abstract interpretation of complete environments; reachability of raise statements, shape analysis and domain analysis of the outputs',
        'All default environments and about 90 configurations with symbolic actions, corners and all switch states; exceptions are judged on their path conditions; overflow and divisions by zero of floating-point numbers are not modelled.' + TRUST,
    ),
}
NOT_APPLICABLE = {
    "N01": "convergence and stability bounds of numerical integration quantify over run-time step sizes and stiffness; no static argument over the source bounds them",
    "N02": "closed-loop tracking depends on run-time dynamics of plant, saturation and tuning; no sound static bound is in reach",
    "N03": "distributions are statistical properties of run-time samples of third-party generators",
}
