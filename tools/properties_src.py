PS = G + "physical_systems/physical_systems.py"
CONV = G + "physical_systems/converters.py"
SUP = G + "physical_systems/voltage_supplies.py"
SOL = G + "physical_systems/solvers.py"
MOT = G + "physical_systems/electric_motors/"
LOAD = G + "physical_systems/mechanical_loads/"
REF = G + "reference_generators/"
WRAP = G + "physical_system_wrappers/"
CORE = G + "core.py"

# ---------------------------------------------------------------- seeding / episodes
prop("S01", "All randomness comes from the seeded per-component generators",
     "Every random quantity of an environment (initial states, load profiles, supply phases, reference trajectories, measurement noise) is drawn from a generator that was derived from the environment's seed. No part of the library draws from the process-wide random state or from a generator seeded with fresh entropy after the seed was set.",
     ["inputs", "histories", "configurations"], "every component, every seed, every call order of other random users in the process",
     "Tests compare two runs in one process with mocked draws; a draw from the global generator looks equally random and passes them.",
     [G + "random_component.py", SUP, LOAD + "mechanical_load.py", LOAD + "ornstein_uhlenbeck_load.py", MOT + "electric_motor.py", MOT + "induction_motor.py", REF + "wiener_process_reference_generator.py"],
     [("per-component generator", G + "random_component.py: RandomComponent.random_generator")],
     observe=["states and references returned by reset/step for equal seeds"])
prop("S02", "Seeding an environment reaches every random component with its own seed",
     "Seeding an environment re-seeds every component that draws random numbers, including components nested inside physical-system wrappers, combined reference generators and switched reference generators. Each of them receives its own sub-seed derived from the given seed; no two components of an environment share one, and none keeps its old generator.",
     ["configurations", "inputs"], "every environment, every nesting of wrappers and combined generators, every seed",
     "The suite checks seed forwarding on mocks for a few classes; nested and wrapped combinations are not enumerated.",
     [CORE, G + "random_component.py", PS, WRAP + "physical_system_wrapper.py", REF + "multiple_reference_generator.py", REF + "switched_reference_generator.py"],
     [("seed distribution", CORE + ": ElectricMotorEnvironment._seed"), ("system seed", PS + ": SCMLSystem.seed")])
prop("S03", "Episode randomness depends only on seed and episode number",
     "After seeding with s, the random draws of the n-th episode are a function of s and n only: they do not depend on how many steps or draws earlier episodes used. Every random component therefore starts a fresh sub-generator exactly at the episode start, before the first draw of that episode, and initial values of different episodes are drawn anew rather than repeated.",
     ["histories"], "all episode histories of any length after a seed",
     "Tests sample one or two resets; they cannot enumerate all previous-episode lengths.",
     [G + "random_component.py", CORE, PS, MOT + "synchronous_motor.py", MOT + "induction_motor.py", LOAD + "mechanical_load.py", REF + "subepisoded_reference_generator.py"],
     [("episode generator", G + "random_component.py: RandomComponent.next_generator")])
prop("S04", "Reset starts an episode that does not depend on the previous one",
     "After a reset every component behaves as if no earlier episode had been simulated: converter switching state, supply state, load state, solver state, time counters, reference state, dead-time queues, observers and controller integrators carry nothing over. Apart from the random stream, the outputs of reset and of all following steps are independent of the earlier steps.",
     ["histories"], "all histories of resets and steps with arbitrary actions",
     "Tests reset freshly built or mocked objects; they do not compare against every dirty internal state.",
     [CORE, PS, CONV, SUP, SOL, LOAD + "mechanical_load.py", WRAP + "dead_time_processor.py", WRAP + "flux_observer.py", REF + "subepisoded_reference_generator.py", G + "reward_functions/weighted_sum_of_errors.py"],
     [("reset chain", CORE + ": ElectricMotorEnvironment.reset"), ("system reset", PS + ": SCMLSystem.reset")])
prop("S05", "Components share no mutable state and leave the caller's objects unchanged",
     "Building, seeding, resetting and stepping one component or environment never changes another one built independently, nor class-level defaults. Parameter dictionaries, lists and arrays passed in by the caller keep their contents.",
     ["histories", "configurations"], "every interleaving of constructions and uses of several instances in one process",
     "Each test builds its own object with fresh parameters; cross-instance leaks only appear for particular construction orders.",
     [MOT + "electric_motor.py", MOT + "doubly_fed_induction_motor.py", LOAD + "mechanical_load.py", LOAD + "constant_speed_load.py", SUP, CONV, G + "utils.py", CORE],
     [("default/user parameter merge", G + "utils.py: update_parameter_dict")])
# ---------------------------------------------------------------- environment core
prop("E01", "Steps are only possible inside an open episode; reset always opens one",
     "A step is rejected before the first reset and after an episode terminated, until the next reset; a reset always opens an episode. Exchanging the reference generator or the reward function closes the episode, and step reports termination exactly when the total violation degree reaches one, while truncation is never reported as true.",
     ["histories"], "all sequences of construct/reset/step/setter calls",
     "Tests exercise single transitions on mocks, not all call histories.",
     [CORE], [("episode flag", CORE + ": ElectricMotorEnvironment.step/reset")])
prop("E02", "Within a step and a reset all modules see the same, correctly ordered data",
     "Within one step the physical system is simulated exactly once with the given action, and the reference, the constraint check, the reward, and the callbacks all receive the resulting new state, the same current reference, the same step counter and the same violation degree. The observation carries the filtered new state and the next reference, and at reset the reference generator, reward function and callbacks get the new initial state and the initial reference.",
     ["inputs", "histories"], "every action, every module combination",
     "Tests run with trivially equal mock values, so swapped or stale arguments can pass.",
     [CORE], [("step wiring", CORE + ": ElectricMotorEnvironment.step"), ("reset wiring", CORE + ": ElectricMotorEnvironment.reset")])
prop("E03", "Observation, space, names, limits and nominal values use one state order",
     "For any selection of observed states, the observation vector, the observation space bounds, the reported state names, limits and nominal values list the same states in the same, user-given order. The observation space pairs the state space with the reference space of the generator in use and the action space is that of the (wrapped) physical system.",
     ["configurations"], "every state filter and wrapper combination",
     "Tests use the default filter or one permutation.",
     [CORE], [("state filter", CORE + ": ElectricMotorEnvironment.__init__")])
prop("E04", "Constraints flag exactly the violated limits and all of them are merged",
     "Every constraint handed to an environment (state names, constraint objects, plain functions) is evaluated on every step on the complete state. A limit constraint reports one exactly if some observed state exceeds its limit in magnitude, a squared constraint exactly if the sum of squared normalised states exceeds one, and the total degree is the maximum, or one minus the product of one minus the degrees, or the user's function of all single degrees; without constraints it is zero.",
     ["inputs", "configurations"], "all states and all constraint configurations",
     "Tests check a few sample states and merge modes on mocks.",
     [CORE, G + "constraints.py"], [("merge", CORE + ": ConstraintMonitor.check_constraints"), ("limit check", G + "constraints.py: LimitConstraint.__call__")])
prop("E05", "Callbacks are driven completely and in a fixed order",
     "Every callback and every visualization given to an environment is bound to it once at construction and receives one begin and one end notification for each reset and each step, with step counter and action at begin, and with step counter, state, reference, reward and termination at the end. Closing the environment notifies each callback once and closes the reward function, physical system and reference generator.",
     ["histories", "configurations"], "all call histories with any number of callbacks",
     "Tests count calls for one mocked callback.",
     [CORE], [("dispatch", CORE + ": ElectricMotorEnvironment._call_callbacks")])
prop("E06", "The adaptive reference margin grows only in its steps and within its bounds",
     "The callback that widens the reference range applies its margin to the generator of the environment, or to every sub-generator of a switched one, updates it exactly once per configured number of steps or episodes, and never moves it beyond the configured maximum margin. The margin in use always equals the one stored by the callback.",
     ["histories", "configurations"], "all update frequencies, step sizes and histories",
     "Tests sample a couple of frequencies.", [G + "callbacks.py"], [("margin update", G + "callbacks.py: RampingLimitMargin")])
prop("E07", "Every admissible action leads to a well-formed step",
     "For every environment (default or with any load, supply, converter, motor initialiser, solver, reference generator or wrapper of the library), reset and each step with an action of the action space raise nothing inside an open episode. reset returns ((state, reference), info) and step ((state, reference), reward, terminated, truncated, info), with state and reference of the shape of their observation space, a scalar reward and boolean flags. No output evaluates a root, logarithm or inverse trigonometric function outside its domain.",
     ["inputs", "configurations"], "all environments of the library, all actions, all seeds",
     "Tests step few environments with few actions.", [CORE, PS, G + "envs/"], [("step", CORE + ": ElectricMotorEnvironment.step"), ("action check", PS)])
# ---------------------------------------------------------------- physical models
prop("M01", "Jacobians given to the solvers are the exact derivatives of the equations",
     "For each motor, each mechanical load and the composed drive system that offers a Jacobian, it equals the partial derivatives of the very right-hand side the solver integrates, with respect to every state, for all parameters, states and inputs. The derivative of the motor equations with respect to speed and of the torque with respect to the electrical states are exact as well.",
     ["inputs", "configurations"], "all states, voltages and machine parameters",
     "Tests compare Jacobian entries with hand-copied numbers for one parameter set.",
     [MOT, LOAD, PS], [("motor jacobian", MOT + "*.py: electrical_jacobian"), ("system jacobian", PS + ": SCMLSystem._system_jacobian")])
prop("M02", "Motor equations implement the machine model; EMF power equals torque power",
     "Each motor's current, flux and angle derivatives follow its documented voltage equations for all parameters, and its torque follows its documented torque equation, for every state. The speed-induced voltages of a machine deliver exactly the mechanical power torque times speed, so the electro-mechanical conversion neither creates nor destroys energy; with the default parameters a short-circuited machine at standstill only dissipates energy.",
     ["inputs", "configurations"], "all states, voltages and machine parameters",
     "Tests compare with numbers from the implementation's own matrices for single parameter sets.",
     [MOT], [("model constants", MOT + "*.py: _update_model"), ("torque", MOT + "*.py: torque"), ("ode", MOT + "*.py: electrical_ode")])
prop("M03", "Frame transformations are mutually inverse and do not alter their inputs",
     "The transformations between three-phase, stationary and rotating frames are the documented amplitude-invariant ones, mutually inverse for all quantities and angles, and a balanced quantity keeps its amplitude. Transforming never changes the arrays or angles passed by the caller, also not when the angle is given normalised.",
     ["inputs"], "all vectors and angles",
     "Tests use a handful of sampled angles and scalar inputs.",
     [MOT + "three_phase_motor.py", PS], [("t_23/t_32/q/q_inv", MOT + "three_phase_motor.py"), ("system transformations", PS + ": ThreePhaseMotorSystem")])
prop("M04", "State vectors carry, slot by slot, what their state names say",
     "In the vectors returned by reset and by simulate of every drive system, each slot holds the quantity its state name announces (speed, torque, each phase or rotating-frame current and voltage, flux, angle, supply voltage), divided by that state's limit. Reset and simulate use the same slot order, units, frame and scaling for every supported machine.",
     ["inputs", "configurations"], "all drive systems, all states, actions and parameters",
     "Tests assert lengths and mocked values; slot permutations and frame mix-ups stay within the bounds they check.",
     [PS], [("simulate", PS + ": *.simulate"), ("reset", PS + ": *.reset"), ("names", PS + ": *._build_state_names")])
prop("M05", "One simulation step advances time by exactly one sampling interval",
     "In one step the solver integrates over all switching sub-intervals announced by the converter in order and ends exactly one sampling time after the step began; before each sub-interval the converter output is evaluated anew with the present motor currents, scaled with the present supply voltage and applied as the motor input for that sub-interval. Step counter and time advance once per step and restart at zero on reset, identically for all machine types.",
     ["inputs", "histories"], "all actions, switching patterns and machine types",
     "Tests with ideal converters have a single sub-interval; patterns with several differ per machine class.",
     [PS], [("sub-interval loop", PS + ": *.simulate")])
prop("M06", "Converters implement their switching tables within their voltage range",
     "For every switching state, action, current direction and interlocking setting the converter outputs the voltages of its documented topology, always inside its declared voltage range, and continuous actions outside the action space are clipped while invalid discrete actions are rejected. Neglecting interlocking, the current drawn from the supply times the supply voltage equals the output power of the switched legs.",
     ["inputs", "configurations"], "all actions, current directions, interlocking times and sub-converter combinations",
     "Tests iterate some tables with fixed currents; combinations of converters, current signs and interlocking are sampled.",
     [CONV], [("convert", CONV + ": *.convert"), ("i_sup", CONV + ": *.i_sup"), ("set_action", CONV + ": *.set_action")])
prop("M07", "Sampling and interlocking time reach every nested converter",
     "When a drive system is built, its sampling time is the one used by its converter and by every sub-converter inside it, and changing it later on a converter changes all of them. Interlocking times given to a composed converter act in all its legs.",
     ["configurations"], "all converter compositions and sampling times",
     "Tests build converters with the final sampling time directly.",
     [CONV, PS], [("tau setter", CONV + ": PowerElectronicConverter.tau"), ("tau hand-over", PS + ": SCMLSystem.__init__")])
prop("M08", "Solvers return the state at the requested time and continue from it",
     "After integrating to a requested time, a solver's time equals that time, its state is the returned result, and the next integration starts there with the current input. The explicit Euler solver applies the documented update over each of its sub-steps with the right-hand side evaluated at the time and state of that sub-step's start, and the adapters for library solvers pass right-hand side, Jacobian, inputs and initial values through unchanged.",
     ["inputs", "histories"], "all states, inputs, horizons and sub-step counts",
     "Tests use autonomous test equations, for which wrong evaluation times are invisible.",
     [SOL], [("Euler", SOL + ": EulerSolver"), ("adapters", SOL + ": Scipy*Solver")])
prop("M09", "Mechanical loads oppose motion and use the total inertia",
     "The speed derivative of a load is the torque difference divided by the sum of rotor and load inertia, where the static load torque is the documented polynomial acting against the direction of rotation, and a load at standstill never starts a motion against the sign of the driving torque. Speed-imposing loads lead to exactly their prescribed speed, whatever torque acts on them.",
     ["inputs", "configurations"], "all speeds, torques and load parameters",
     "Tests check sample points on one branch of the sign logic.",
     [LOAD], [("polynomial load", LOAD + "polynomial_static_load.py"), ("inertia", LOAD + "mechanical_load.py: set_j_rotor")])
prop("M10", "Voltage supplies follow their model and stay consistent with their range",
     "The ideal supply always delivers its nominal voltage, the RC supply the state of its own first-order model advanced by the elapsed time, and the AC supplies sine waves with the configured amplitude, frequency and phase, shifted by a third of a period between the three phases. The number of voltages delivered equals the announced one on every call, including reset.",
     ["inputs", "histories", "configurations"], "all times, currents and supply parameters",
     "Tests sample few time points.",
     [SUP], [("get_voltage", SUP + ": *.get_voltage"), ("reset", SUP + ": *.reset")])
prop("M11", "Initial values are assigned to the states they are configured for",
     "A configured initial value of a motor or load state ends up in the state variable of that name at every reset, for constant as well as for random initialisation, and random initial values stay within the configured interval, uniform ones anywhere in it and gaussian ones drawn with the configured mean and deviation. With no random distribution given, every reset starts from the configured constants.",
     ["configurations", "inputs"], "all initializer configurations and machine types",
     "Tests use equal (zero) initial values for all states, which hides swapped slots.",
     [MOT + "electric_motor.py", MOT + "synchronous_motor.py", MOT + "induction_motor.py", LOAD + "mechanical_load.py"],
     [("initialize", MOT + "electric_motor.py: ElectricMotor.initialize"), ("load initialize", LOAD + "mechanical_load.py: MechanicalLoad.initialize")])
prop("M12", "Every state has the limit, nominal value and bounds its machine defines",
     "Each state of a drive system is limited by the smaller of the motor and load limits given for its name and never by that of another state; user-given limits and nominal values override derived ones, and derived ones are completed for every voltage, current, torque and speed state, a derived torque limit being one that currents within their limits produce. The normalised state space spans only the directions that converter and load allow.",
     ["configurations"], "all machine types and user limit/nominal configurations",
     "Tests check default parameter sets.",
     [PS, MOT], [("limits", PS + ": SCMLSystem._set_limits"), ("limit derivation", MOT + "*.py: _update_limits")])
# ---------------------------------------------------------------- references
prop("R01", "Generated references stay inside the announced range",
     "Every value of every generated reference trajectory lies inside the reference range derived from the configured limit margin and the state space, for every random draw, and the announced reference space contains it. The margin is applied as documented for scalar margins, for tuples and for the nominal-value default.",
     ["inputs", "configurations"], "all random draws, episode lengths and margins",
     "Random trajectories are sampled a few times only.",
     [REF], [("clipping", REF + "*.py: _reset_reference"), ("range", REF + "subepisoded_reference_generator.py: set_modules")])
prop("R02", "The announced next reference is the reference applied in the next step",
     "The reference observation handed out in one step is, after normalisation, exactly the reference used for the reward in the following step, at sub-episode boundaries and right after a reset as well. Each step consumes exactly one trajectory value, none is skipped or repeated.",
     ["histories"], "all sub-episode lengths and step sequences",
     "Tests check single calls on prepared trajectories, not the boundary sequences.",
     [REF + "subepisoded_reference_generator.py", REF + "switched_reference_generator.py", REF + "const_reference_generator.py", CORE],
     [("sub-episode bookkeeping", REF + "subepisoded_reference_generator.py: get_reference_observation")])
prop("R03", "Combined reference generators forward everything to their parts",
     "A combined reference generator announces the concatenated names, spaces and referenced states of its parts in one order and returns the concatenated observations and the sum of the part references; a switched generator delegates to exactly one active part at a time, selected with the configured probabilities, and resets the newly selected part when switching. Every setup, reset, reference and seed request reaches all parts concerned.",
     ["configurations", "histories"], "all compositions of generators",
     "Tests use mocked sub-generators with fixed returns.",
     [REF + "multiple_reference_generator.py", REF + "switched_reference_generator.py"],
     [("multiple", REF + "multiple_reference_generator.py"), ("switched", REF + "switched_reference_generator.py")])
prop("R04", "Every reference generator produces the trajectory kind it announces",
     "Within a sub-episode the references of a sinusoidal, triangular, sawtooth or step generator are exactly that waveform, sampled every control step, with amplitude, frequency, offset and phase drawn anew from the configured ranges and shifted so that the whole wave lies in the announced reference range. Wiener and Laplace process references continue from the previous reference with one independent increment per step, whose deviation is drawn from the configured range, and are held at the announced range; sub-episode lengths come from the configured lengths.",
     ["inputs", "configurations", "histories"], "all generators, parameter ranges, margins and random draws",
     "Tests replace the random generator by fixed numbers for few parameter sets.",
     [REF + "subepisoded_reference_generator.py", REF + "sinusoidal_reference_generator.py", REF + "step_reference_generator.py", REF + "wiener_process_reference_generator.py"],
     [("sub-episode trajectories", REF + "*.py: _reset_reference"), ("parameter draws", REF + "subepisoded_reference_generator.py: SubepisodedReferenceGenerator._get_current_value")])
prop("E08", "Observers report the current value under each name",
     "A state observer offers every observed state and every reference of its environment and reports, under each name, the value of the last observation returned by reset or step, whatever states the environment observes and however it is wrapped. Creating observers leaves the environment unchanged and unknown names are rejected.",
     ["configurations", "histories"], "all state filters, wrappers and episodes",
     "There are no tests of the observers.",
     [G + "observers/observer.py", G + "core.py"], [("pull", G + "observers/observer.py: StateObserver.pull"), ("last observation", G + "core.py: ElectricMotorEnvironment.reset, step")])
# ---------------------------------------------------------------- reward
prop("W01", "The reward is the documented blend of tracking error and violation",
     "The reward equals one minus the violation degree times the negated, weighted, range-normalised, powered tracking error plus bias, plus the violation degree times the violation reward, for every state and reference. Weights are normalised as configured, and every reward without violation lies in the announced reward range when states and references lie in their ranges.",
     ["inputs", "configurations"], "all states, references, weights, powers and violation degrees",
     "Tests compare few sample values.",
     [G + "reward_functions/weighted_sum_of_errors.py"], [("reward", G + "reward_functions/weighted_sum_of_errors.py: WeightedSumOfErrors")])
# ---------------------------------------------------------------- wrappers
prop("X01", "Wrappers keep names, spaces, limits and state vectors in step",
     "Each physical-system wrapper that adds or removes states changes state names, positions, limits, nominal values, state space and the vectors of both reset and simulate consistently, with the new slots holding what their names announce. All other slots and all other services of the wrapped system are passed through unchanged, and wrapping never alters the vectors the wrapped system keeps.",
     ["inputs", "configurations"], "all wrapper stacks over all systems",
     "Tests wrap a mocked system once.",
     [WRAP], [("wrapper base", WRAP + "physical_system_wrapper.py"), ("cos/sin", WRAP + "cos_sin_processor.py"), ("noise", WRAP + "state_noise_processor.py"), ("flux", WRAP + "flux_observer.py"), ("sum", WRAP + "current_sum_processor.py")])
prop("X02", "Action wrappers deliver the right action exactly once per step",
     "With a dead time of n steps the system receives in step k the action given in step k minus n, and the configured (or neutral) reset action for the first n steps of each episode. The rotating-frame action wrapper converts the action with the machine's transformation at the electrical angle expected for the middle of the interval in which the action becomes active; every wrapper calls the wrapped system exactly once per step.",
     ["histories", "inputs"], "all action sequences and dead times",
     "Tests check short sequences with one dead time.",
     [WRAP + "dead_time_processor.py", WRAP + "dq_to_abc_action_processor.py"], [("queue", WRAP + "dead_time_processor.py"), ("angle advance", WRAP + "dq_to_abc_action_processor.py")])
# ---------------------------------------------------------------- registered environments
prop("V01", "Every registered environment id constructs the class it names",
     "Each registered id resolves to an existing environment class whose control type, task and motor are those in its name, every exported environment class is registered exactly once, and ids are unique.",
     ["configurations"], "all registered ids",
     "Tests construct a subset of the ids.", [G + "__init__.py", G + "envs/__init__.py"], [("registry", G + "__init__.py")])
prop("V02", "Constructor arguments of every environment are honoured",
     "For every environment class, each component or component configuration the user passes (supply, converter, motor, load, solver, reference generator, reward, visualization, callbacks, constraints, wrappers, sampling time, state filter) is the one used by the resulting environment; defaults only fill what is not given. The same holds when only a dictionary with some parameters is passed.",
     ["configurations"], "all environment classes times all constructor arguments",
     "Tests instantiate defaults and few overrides.", [G + "envs/", G + "utils.py"], [("component initialisation", G + "utils.py: initialize")])
prop("V03", "Default environments control what their name promises",
     "Each environment class built with defaults contains a motor of the named type, a continuous or finite converter as named, and references and rewards exactly the speed, the torque or the current states belonging to its task, all of which exist in its system and are supervised or bounded. The converter offers as many outputs as the motor has voltage inputs.",
     ["configurations"], "all environment classes",
     "Tests do not cross-check the components of all classes.", [G + "envs/"], [("defaults", G + "envs/**: __init__")])
prop("V04", "Environments and motors are the ones their documentation describes",
     "Every environment class builds supply, converter, motor, load, reference generators, reward function and visualization of the documented classes, references, rewards and constrains the documented quantities with the documented weights, offers the documented states and runs with the documented cycle time. The default parameters of every motor are those of its documented table.",
     ["configurations"], "all 54 environment classes, all motor classes",
     "Tests construct few environments and look at few of their components.",
     [G + "envs/", MOT], [("defaults", G + "envs: __init__ of every environment class"), ("parameters", MOT + "*: _default_motor_parameter")])
# ---------------------------------------------------------------- controllers
prop("G01", "Every advertised controller combination can be made and controls its environment",
     "For every motor, control task, action type and base controller the controller package advertises, GemController.make yields a tuned controller (also for wrapped environments) whose control call returns an action of the shape of the action space, directly after making it and after a reset. Every parameter table has an entry for every motor that evaluates on its environment with one value per controlled current, names only states of the environment, and no table position computed from states and references leaves its table. Every numpy/scipy function used exists in the installed version, the k-th component of a current controller follows the k-th current reference, and stages, base controllers and attribute values set by the user are the ones used.",
     ["configurations", "inputs"], "all motor types times control tasks times action types times base controllers; all states and references",
     "The package has no tests at all.", [C + "parameter_reader.py", C + "gem_controller.py", C + "stages/"], [("tables", C + "parameter_reader.py"), ("make", C + "gem_controller.py")])
prop("G02", "Resetting a controller resets every stage that has memory",
     "After reset() a controller answers exactly like a freshly made one: its actions depend only on the states and references given after the reset, whatever it was given before (integrators, saturation, flux controllers, modulation control, hysteresis states). Controllers made for the same environment do not influence each other.",
     ["histories"], "all control histories", "The package has no tests.", [C + "stages/", C + "torque_controller.py", C + "pi_speed_controller.py", C + "pi_current_controller.py"],
     [("reset chain", C + "gem_controller.py")])
prop("G03", "Saturated control actions stay in range and freeze the integrators",
     "Each base controller yields the documented sum of its terms (P, I, D), or the sign of the control error (three point), and each continuous output stage returns actions inside the action space. Each clipping stage leaves set points inside the range it was tuned to (per component for DC machines, the current or voltage circle for three-phase machines) unchanged, otherwise returns the documented point on its border, and reports input minus output as the difference. An integrating controller does not integrate the components for which a limitation is reported, and each level of the cascade hands its limited reference to the next one.",
     ["inputs"], "all references, states and gains", "The package has no tests.", [C + "stages/clipping_stages/", C + "stages/base_controllers/"],
     [("clipping", C + "stages/clipping_stages/"), ("anti-windup", C + "stages/anti_windup.py")])
prop("G04", "Controllers match the machine: units, decoupling, angles, operation points",
     "The inner controllers receive states and references in physical units, independent of the order in which the environment shows its states and without changing the caller's arrays, and the output stage requests exactly the demanded voltages from the converter. With the feedforward (switched by the decoupling flag) the machine's current derivatives do not depend on the speed or the other axes, and dq set points are transformed at the electrical angle in the middle of the interval in which they act, including dead times. A selected operation point is a number for every state and reference, yields the requested torque unless a limit is reached (never one of the other sign or above the request), keeps the flux and modulation limits set by the user, and is loss-optimal; rows of its tables satisfy the torque, flux and voltage equations of the machine, and a tabulated value selects its own row.",
     ["inputs", "configurations"], "all states, references, motors of the package",
     "The package has no tests.", [C + "gem_adapter.py", C + "stages/"], [("signal path", C + "gem_adapter.py"), ("operation points", C + "stages/operation_point_selection/"), ("feedforward", C + "stages/emf_feedforward.py")])
prop("G05", "control_environment runs episodes correctly; plotting has no side effects",
     "control_environment performs exactly n_steps steps, computes every action from the observation returned last, resets environment and controller together at the start and whenever the episode terminates, is truncated or reaches max_episode_length steps (and at no other time), renders once per step if and only if asked, and opens and closes an existing block diagram. Plotting the references (should_plot) changes no action, shows exactly the set points and limits the cascade uses, and changes no plot with plot_references=False. The current limits of the cascade are (1 - current_safety_margin) times the limits of the environment.",
     ["histories", "configurations"], "all episode patterns, all continuous combinations",
     "The package has no tests.", [C + "gem_controller.py", C + "gem_adapter.py", C + "reference_plotter.py"], [("loop", C + "gem_controller.py"), ("plots", C + "reference_plotter.py")])
# ---------------------------------------------------------------- visualization
prop("Z01", "Visualization observes without influencing the simulation",
     "For every environment, seed and action sequence the states, references, rewards and terminations are the same with and without visualizations (dashboards, printers, several of them, any render mode), renderings, figure resets and forced renderings in between. No notification or rendering of a visualization changes any attribute of the environment or of its components, nor writes the state, reference and action arrays handed to it.",
     ["histories", "configurations"], "all environments and visualizations of the library", "Tests do not compare runs with and without visualization.",
     [G + "visualization/", G + "core.py"], [("dashboard callbacks", G + "visualization/motor_dashboard.py")])
prop("Z02", "Plots and console output show the right quantity at the right time",
     "After every rendering each line of a plot shows exactly one sample per step (per episode for episode plots) since the last reset_figures, with the matching time, in physical units, with every violation and manual reset marked once at its time; with scale_plots the axis covers the data, otherwise it keeps the range of the quantity. Every plot of a dashboard (selected by name or 'all') gets each notification exactly once with the environment's arguments and is updated once per update interval, on demand and for new figures. Labels are well-formed formulas naming quantity and unit, and the console printer reports each finished episode with its number of steps, cumulative reward and cause, and each printed step with its physical values.",
     ["histories", "configurations"], "all plots of the library and the console printer, all histories of resets, steps, renderings and figure resets", "Tests check single plots with mocks; the console printer has no tests.",
     [G + "visualization/"], [("state plot", G + "visualization/motor_dashboard_plots/state_plot.py"), ("dispatch", G + "visualization/motor_dashboard.py"), ("console", G + "visualization/console_printer.py: ConsolePrinter.render")])
# ---------------------------------------------------------------- not decided statically
prop("N01", "Numerical solutions converge to the exact machine trajectories",
     "For every environment the simulated trajectories converge to the exact solution of the machine equations when the solver tolerance or the step size goes to zero, and stay numerically stable at the default step sizes.",
     ["inputs", "configurations"], "all parameters, initial states, inputs", "Tests compare single trajectories with loose tolerances.", [SOL, PS], [("solvers", SOL)])
prop("N02", "Shipped controllers track their references on the shipped motors",
     "With default parameters each shipped controller drives its environment to the reference without leaving the limits for every admissible reference and load.",
     ["inputs", "histories"], "all references and loads", "No tests for controllers.", [C], [("tuning", C + "tuner/")])
prop("N03", "Random references and initial values follow their documented distributions",
     "The generated references and initial values have the documented statistical distributions (uniform, normal, Wiener, Ornstein-Uhlenbeck, spectral content of Laplace noise).",
     ["inputs"], "all seeds", "Tests mock the generator.", [REF, MOT + "electric_motor.py"], [("draws", REF)])
