#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
S = "src/gym_electric_motor/"
G = "src/gem_controllers/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        observe_at=list(observe), hook_needed=None)))

prop("C01", "Episode protocol: reset before step, refusal after the end, terminated flag",
 "An environment accepts a step only while an episode is running: before the first reset, after a step that reported termination, and after the reference generator or the reward function was exchanged, a step is refused without advancing anything, until the next reset. "
 "A step reports terminated exactly when the constraint monitor's violation degree for the state reached is at least 1, and truncated is always False. "
 "Reset is accepted in every phase and always starts a fresh running episode whose step counter is 0.",
 ["schedules", "histories"], "Every sequence of reset, step (safe, partially violating or violating), component exchange and close calls, of any length, on any environment.",
 "Unit tests call step/reset on mocked components in a handful of fixed orders; the protocol has to hold after every call history, including exchange of components in the middle of an episode and refused calls in between.",
 [S+"core.py"], [("ElectricMotorEnvironment.reset / step", S+"core.py"), ("module setters force a new reset", S+"core.py")],
 [("running", "an episode is in progress", S+"core.py"), ("k", "steps taken since the last reset", S+"physical_systems/physical_systems.py")],
 ["return values and exceptions of reset/step", "physical system step counter"])

prop("C02", "Callback protocol: which events, in which order, with which arguments",
 "Every reset delivers to each registered callback exactly one reset-begin followed by one reset-end carrying the initial state and reference; every accepted step delivers one step-begin with the step index and the action as given, then one step-end with the next index, the state reached, the reference valid for it, the reward and the termination flag of that very step; close delivers one close event. "
 "Callbacks are served in registration order with visualizations after the callbacks, and a refused step delivers no event. "
 "The states in the events are the full, unfiltered state vectors.",
 ["schedules", "histories"], "Every call history of reset/step/close on environments with any number of callbacks and visualizations and any state filter.",
 "Tests fire single events through mocks; they do not follow the event stream of a whole history nor compare event payloads with what the step returned.",
 [S+"core.py", S+"callbacks.py"], [("_call_callbacks and its call sites", S+"core.py")],
 [], ["events received by a recording callback"])

prop("C03", "Seeding: a seeded reset fixes everything that follows",
 "After a reset with seed s, all observations, rewards, flags and references of this and all following episodes are a function of the environment's configuration, s and the sequence of calls made since; a reset without seed continues the random streams instead of reseeding, and the randomness of an episode of components that restart only at a reset does not depend on the lengths of the episodes before. "
 "This covers every random part: initial states, references, noise, load and supply randomness, whatever happened before the seeded reset and whatever other code does with the global random generators. "
 "Different seeds give different random streams.",
 ["histories", "configurations"], "All registered environments and component combinations with randomness, all seeds, all histories before and after the seeded reset.",
 "The seeding test compares one seeded rollout of default environments; it never compares different pre-histories, later unseeded episodes, components that are not in the default configurations, or disturbed global generators.",
 [S+"core.py", S+"random_component.py", S+"physical_systems/physical_systems.py", S+"physical_system_wrappers/physical_system_wrapper.py", S+"reference_generators/*.py", S+"physical_systems/mechanical_loads/*.py", S+"physical_systems/electric_motors/*.py", S+"physical_systems/voltage_supplies.py"],
 [("RandomComponent seed / next_generator", S+"random_component.py"), ("seed distribution to the components", S+"core.py")],
 [("random streams", "one per random component, derived from the environment seed", S+"random_component.py")], ["digests of everything reset/step return"])

prop("C04", "Isolation: environment instances do not influence each other",
 "What an environment returns and reports - observations, rewards, flags, time step, names, limits and spaces - does not depend on which other environments or components have been constructed, configured, reset, stepped or closed in the same process, before or in between. Component objects (motor, load, supply, converter, solver, wrappers, references, reward function, constraints) that served another environment before work in a new environment like fresh ones.",
 ["schedules", "configurations"], "Every interleaving of constructing and operating two or more environments with any component configurations.",
 "Tests build environments one after the other and look at one at a time; sharing through class attributes and default arguments only shows in interleavings.",
 [S+"core.py", S+"physical_systems/*.py", S+"constraints.py", S+"envs/**/*.py"],
 [("per-instance state", S+"core.py"), ("per-instance parameter dictionaries", S+"physical_systems/electric_motors/electric_motor.py")],
 [], ["traces of an environment run alone and interleaved"])

prop("C05", "Reset erases history",
 "The behaviour of an episode does not depend on what happened before its reset: converter switching state and interlocking, delayed actions, supply dynamics, flux estimates, time, integrator state and reference progress all start from their defined initial values. "
 "So, with deterministic components or equal random streams, two episodes fed the same actions are identical, whatever preceded them.",
 ["histories", "configurations"], "Every pre-history (any actions, lengths, aborted or terminated episodes) on every environment, including interlocking, dead time, RC and AC supplies and observers.",
 "Tests reset once after construction; leakage needs a specific last action or state before the reset and a component configuration outside the defaults.",
 [S+"core.py", S+"physical_systems/converters.py", S+"physical_systems/voltage_supplies.py", S+"physical_systems/solvers.py", S+"physical_system_wrappers/*.py", S+"reference_generators/*.py"],
 [("reset of every component", S+"physical_systems/physical_systems.py")], [], ["traces of equal episodes after different histories"])

prop("C06", "Clock: step counter, time and time-driven components stay in step",
 "After n accepted steps since the last reset the step counter is n and the simulation time is n*tau; every component that depends on time - supply, load speed profile, solver, converter switching - is evaluated with exactly this time, and the configured tau is the one in effect in every component. "
 "A reset puts all of these clocks back to zero.",
 ["histories", "configurations"], "All environments, all tau, all sequences of steps and resets, time-dependent supplies and load profiles, solvers with and without sub-steps, interlocking.",
 "Tests check single components with fixed times; agreement of several clocks over a history of steps and resets and non-default tau is not examined.",
 [S+"physical_systems/physical_systems.py", S+"physical_systems/solvers.py", S+"physical_systems/converters.py", S+"physical_systems/voltage_supplies.py", S+"physical_systems/mechanical_loads/*.py"],
 [("k, t bookkeeping in simulate/reset", S+"physical_systems/physical_systems.py")],
 [("k", "step counter", S+"physical_systems/physical_systems.py"), ("t", "time", S+"physical_systems/physical_systems.py")], ["k, t and states driven by time profiles"])

prop("C07", "Finite converters: switching table, interlocking and supply current",
 "A finite-control-set converter outputs, for each action, exactly the documented voltage level of its switching table (per sub-converter for multi converters and per half bridge for the B6 bridge). "
 "With an interlocking time, a change between the two active switches of a half bridge inserts, for exactly this time at the start of the step, an interval in which both are off and the output is decided by the current's sign; at all other times, and if no change takes place, the output is that of the action. "
 "Actions outside the action space are rejected, and the supply current is that drawn by the conducting switches.",
 ["inputs", "histories", "configurations"], "All converter types and nestings, all action sequences, all current signs, all interlocking times shorter than tau.",
 "Tests step fixed action lists with a fixed interlocking time; pairs of consecutive actions combined with current signs, nesting and custom tau are only sampled.",
 [S+"physical_systems/converters.py"], [("set_action / convert / i_sup of the finite converters", S+"physical_systems/converters.py")],
 [("switching state", "last active switch per half bridge", S+"physical_systems/converters.py")], ["switching times, voltages and supply currents"])

prop("C08", "Continuous converters: average voltage, bounds, dead-time and supply current",
 "A continuously controlled converter turns a duty value into the documented mean voltage ratio of its topology, clips it to the range of that topology whatever was commanded, and reduces it by the interlocking loss, which has the magnitude interlocking time over sampling time and opposes the current. "
 "The supply current is the duty-weighted current of the conducting switches, summed over sub-converters. "
 "The converter's action delay, output space and current/voltage sign capabilities are those of its topology.",
 ["inputs", "histories", "configurations"], "All continuous converter types and nestings, all action values including out-of-range ones, all currents, tau and interlocking times.",
 "Tests use a few duty values with default parameters; the clipping/interlock/sign/nesting combinations are not covered.",
 [S+"physical_systems/converters.py"], [("convert / i_sup of the continuous converters", S+"physical_systems/converters.py")], [], ["voltages and supply currents"])

prop("C09", "Dead time delays every action by exactly the configured steps",
 "With a dead time of d steps the action executed in step n of an episode is the action commanded in step n-d, and the configured (or zero) reset action for the first d steps of every episode; actions are neither lost, duplicated nor reordered, and later modification of an action object by the caller has no influence. "
 "This holds for discrete, multi-discrete and continuous action spaces and leaves state layout and action space unchanged.",
 ["histories", "inputs"], "All dead times d>=1, all action sequences, all reset points, all action-space kinds.",
 "Tests check a few steps of one episode with mocked systems; aborted episodes, queue contents across resets and mutation of action arrays are not covered.",
 [S+"physical_system_wrappers/dead_time_processor.py"], [("FIFO of actions", S+"physical_system_wrappers/dead_time_processor.py")],
 [("queue", "actions commanded but not executed yet", S+"physical_system_wrappers/dead_time_processor.py")], ["actions received by the wrapped system"])

prop("C10", "Wrapped physical systems keep names, spaces, limits and values aligned",
 "For every stack of physical-system wrappers, the state names, name positions, limits, nominal values, state space and every state returned by reset and by a step have one common length and order, with the wrapped system's entries unchanged except for what a wrapper is documented to alter. "
 "The values a wrapper adds are those it documents: cosine and sine of the angle, the (sum of) currents relative to its limit, the estimated rotor flux magnitude and angle, additive noise on the selected states only.",
 ["configurations", "histories"], "All wrappers in all stacking orders that fit, with all options, over resets and steps.",
 "Each wrapper is tested alone with a dummy system; combinations, reset/step agreement and options such as angle removal are not.",
 [S+"physical_system_wrappers/*.py"], [("set_physical_system / reset / simulate of the wrappers", S+"physical_system_wrappers/physical_system_wrapper.py")], [], ["names, limits, spaces, states of the wrapped system"])

prop("C11", "Constraint monitoring: violation degree from all constraints, in every state",
 "A limit constraint's degree is 1 if any monitored normalised state exceeds 1 in absolute value and 0 otherwise; a squared constraint's degree is 1 if the sum of squares of its normalised states exceeds 1 and 0 otherwise; a user function's degree is its return value. "
 "The monitor's total is the maximum, or for the product merge 1 minus the product of the complements, or the value of the user's merge function of all degrees - and all kinds of constraints the documentation allows are taken into account.",
 ["inputs", "configurations"], "All states, all sets of constraints of all kinds (names, objects, functions, 'all'), all merge functions.",
 "Constraint classes are tested in isolation with mocked systems; the monitor's merging and the environment's handling of the constraint argument are not exercised.",
 [S+"constraints.py", S+"core.py"], [("ConstraintMonitor.check_constraints", S+"core.py"), ("LimitConstraint, SquaredConstraint", S+"constraints.py")], [], ["termination and the violation part of the reward"])

prop("C12", "Weighted-sum-of-errors reward: formula, violation blending and range",
 "The reward of a step is (1-d) times the weighted sum of errors plus d times the violation reward, where d is the violation degree and the weighted sum is the bias minus the sum over the weighted states of weight times (absolute error over state length) to the power given for that state. "
 "Weights are normalised if requested, are by default distributed equally over the referenced states, the default violation reward and the 'positive' bias follow the documented formulas, and without violation the reward lies in the reported reward range.",
 ["inputs", "configurations"], "All states, references, weights (dict, array, default), powers, biases, gammas, violation rewards and degrees.",
 "Tests evaluate a small table of weights/powers with mocks; partial violation degrees, range and default formulas over arbitrary configurations are not covered.",
 [S+"reward_functions/weighted_sum_of_errors.py", S+"core.py"], [("reward and set_modules", S+"reward_functions/weighted_sum_of_errors.py")], [], ["reward returned by step, reward range"])

prop("C13", "Reference generators: range, sub-episodes and waveform of every reference",
 "The configured margin is nominal value / limit, one factor or a pair of factors of the state's normalised range, and is reported as reference space. Every reference value shown to the agent lies within it at all times (the value at the reset itself is the one handed over, otherwise 0 or, for a Wiener process, drawn from the initial range); sub-episodes have lengths within the configured range, and within a sub-episode the reference follows the documented waveform (sinusoid, triangle, sawtooth, step, Wiener process, Laplace process, constant, zero) with parameters drawn from the configured ranges, intersected with what the margin permits. "
 "States that are not referenced have reference 0, and exactly the named state is marked as referenced. "
 "A random process continues without gap at sub-episode borders, and every generator starts a new sub-episode at reset.",
 ["configurations", "histories", "inputs"], "All generator kinds, parameter ranges, margins, episode lengths, random seeds and episode lengths longer and shorter than the prepared horizon.",
 "Tests patch the random draws and check single sub-episodes; behaviour over long histories, borders, resets and restrictive margins is not covered.",
 [S+"reference_generators/*.py"], [("SubepisodedReferenceGenerator.get_reference_observation / _reset_reference", S+"reference_generators/subepisoded_reference_generator.py")],
 [("sub-episode", "position in and length of the current sub-episode", S+"reference_generators/subepisoded_reference_generator.py")], ["reference trajectories"])

prop("C14", "Composed references: switching and multiplexing preserve the sub-references",
 "A switched reference is at every time the reference of the one currently active sub-generator, active for a number of steps from the configured super-episode range, and on a switch the next generator (chosen with the given probabilities) is restarted; a generator with probability zero is never used. "
 "A multiple reference contains, for each sub-generator, exactly that generator's reference for its state, with names, observation space and referenced-state mask in the same order.",
 ["configurations", "histories"], "All sets of sub-generators of all kinds, all super-episode ranges and probabilities, all episode histories.",
 "Tests use mocked sub-generators over a few calls; hand-over timing and alignment over long histories with real sub-generators are not covered.",
 [S+"reference_generators/switched_reference_generator.py", S+"reference_generators/multiple_reference_generator.py"],
 [("super-episode handling", S+"reference_generators/switched_reference_generator.py"), ("concatenation", S+"reference_generators/multiple_reference_generator.py")],
 [("active generator", "index of the sub-generator in use", S+"reference_generators/switched_reference_generator.py")], ["reference trajectories, names, spaces"])

prop("C15", "Observations: filter, spaces, names, and the reference that is rewarded next",
 "What reset and step return is the state restricted to the filtered names, in the filter's order, together with the reference observation for the next step; names, limits, nominal values and observation space reported by the environment describe exactly these entries. "
 "The reference shown in the observation at step n is the one against which the reward of step n+1 is computed. "
 "Every returned observation whose states are within their limits is a member of the observation space. Returned observations do not change afterwards, and overwriting them does not influence the environment. A state observer returns the entry of the latest observation (state or next reference) that it is asked for by name, and refuses other names.",
 ["configurations", "histories"], "All environments, all state filters (order, subsets), wrappers, reference generators, all action sequences.",
 "Tests check one filter on mocks; alignment of name/limit/space/value for arbitrary filters and the one-step relation between observed and rewarded reference over histories is not covered.",
 [S+"core.py"], [("reset/step return values, state_filter", S+"core.py")], [], ["observations, names, limits, spaces, rewards"])

prop("C16", "Electric motor models follow their documented equations",
 "For every motor type and parameter set, the state derivative, the torque, the induced quantities and the reported Jacobian at every state, voltage and speed are those of the documented machine equations, the Jacobian being the exact derivative of the model. "
 "User-supplied parameters replace exactly the named defaults.",
 ["inputs", "configurations"], "All motor types (PermEx, ExtEx, Series, Shunt DC; PMSM, SynRM, EESM, SCIM, DFIM), all parameters, states, voltages and speeds.",
 "Tests compare a few states with default parameters; a wrong term only shows for parameter sets or states in which it does not vanish or coincide.",
 [S+"physical_systems/electric_motors/*.py"], [("electrical_ode, torque, electrical_jacobian", S+"physical_systems/electric_motors/*.py")], [], ["electrical_ode(), torque(), electrical_jacobian()"])

prop("C17", "Three-phase transformations are mutually inverse and used consistently",
 "The abc/alpha-beta/dq transformations and their inverses are mutually inverse for every vector and angle and amplitude-invariant. "
 "In every state a three-phase system returns, the angle lies within [-pi, pi], the phase currents sum to zero and are the inverse transform of the returned dq currents at the angle of that state (for induction machines the field angle), and the dq voltages are the transform of the returned phase voltages at the angle at which they were applied. "
 "A dq action is applied as the phase voltages at the angle advanced by half a sampling period plus the dead time.",
 ["inputs", "histories"], "All vectors, angles, speeds, dead times, all three-phase environments and all action sequences.",
 "Tests check a few vectors; consistency of the returned state over histories and with dead time is not covered.",
 [S+"physical_systems/electric_motors/three_phase_motor.py", S+"physical_systems/physical_systems.py", S+"physical_system_wrappers/dq_to_abc_action_processor.py"],
 [("t_23, t_32, q, q_inv", S+"physical_systems/electric_motors/three_phase_motor.py")], [], ["transformation functions, returned states, wrapped actions"])

prop("C18", "Mechanical loads: torque balance, friction that never drives, prescribed speeds",
 "For a dynamic load the angular acceleration is (motor torque minus load torque) divided by the total inertia of load and motor, where the static load torque is the documented polynomial, always acts against the rotation, vanishes at standstill and has its constant part faded in linearly around standstill; for constant and externally given speeds the speed follows the prescription, taken at the given time, regardless of the torque. "
 "The load's Jacobian is the derivative of its equation, and the speed limit and initial speed are those configured.",
 ["inputs", "configurations", "histories"], "All load types and parameters, all speeds (including sign changes and standstill), torques and times.",
 "Tests evaluate a few points with default parameters.",
 [S+"physical_systems/mechanical_loads/*.py"], [("mechanical_ode, mechanical_jacobian", S+"physical_systems/mechanical_loads/*.py")], [], ["mechanical_ode(), omega trajectories"])

prop("C19", "Voltage supplies deliver their documented voltage at every time",
 "An ideal supply delivers its nominal voltage at all times; an RC supply follows the documented differential equation driven by the supply current that was drawn and restarts fully charged; single- and three-phase AC supplies deliver sinusoids of the configured amplitude and frequency at the current time, with the fixed or randomly drawn phase of the episode and, for three phases, 120 degrees apart. "
 "The reported supply voltage in the state is the delivered one.",
 ["inputs", "histories", "configurations"], "All supply types and parameters, all times and current histories, resets in between.",
 "Tests sample a few times with default parameters; current histories over several episodes and non-default parameters are not covered.",
 [S+"physical_systems/voltage_supplies.py"], [("get_voltage / reset", S+"physical_systems/voltage_supplies.py")], [("RC state", "capacitor voltage and last time", S+"physical_systems/voltage_supplies.py")], ["get_voltage(), supply voltage state"])

prop("C20", "ODE solvers integrate the given system from the current state to the given time",
 "After integrating to time t the solver's time is t and its state is the numerical solution of the given system started at the previous state and time, with the inputs that were set, to the accuracy of the method and number of sub-steps; repeated integration continues from there, and setting an initial value restarts it. "
 "The solver never alters a state it returned or an initial value it was given, one-step methods evaluate the system at times inside the interval only, and different solvers agree on the same system within their accuracy.",
 ["inputs", "histories", "configurations"], "All solvers and sub-step numbers, all systems (linear, nonlinear, time-dependent), step lists and restarts.",
 "Tests integrate one linear system with one step size and no explicit time dependence.",
 [S+"physical_systems/solvers.py"], [("integrate / set_initial_value", S+"physical_systems/solvers.py")], [("y, t", "solver state and time", S+"physical_systems/solvers.py")], ["solver y and t, system evaluations"])

prop("C21", "Initial states: the value given for a state is the value that state starts with",
 "Every episode starts with each motor and load state at the value configured for it by name - independent of the order in which names are given - or, for random initialisation, at a value inside the configured interval intersected with the state's limits, freshly drawn for every episode. "
 "The first observation, the solver and the derived quantities (torque, phase currents, angle) all reflect these initial values.",
 ["configurations", "histories"], "All motors and loads, constant, uniform and Gaussian initialisation, with partial or full dictionaries, intervals and parameters, over many episodes.",
 "Tests check the initializer of each motor in isolation with one dictionary; they do not compare the first observation by name nor successive episodes.",
 [S+"physical_systems/electric_motors/*.py", S+"physical_systems/mechanical_loads/*.py", S+"physical_systems/physical_systems.py"],
 [("initialize / reset", S+"physical_systems/electric_motors/electric_motor.py")], [], ["first observation of episodes"])

prop("C22", "Registry: every environment id builds the system its name promises",
 "Each of the 54 registered ids builds an environment whose motor, action space (continuous box or finite set of the topology's size), referenced quantities (currents, torque or speed) and reward weights match its name and documentation, with the documented default sampling time. "
 "An override given as component object is used as it is, one given as parameter dictionary changes exactly these parameters of the default component, None keeps the default, and a class or key string is refused; everything not overridden keeps its default.",
 ["configurations"], "All 54 ids, all overridable components and parameter forms.",
 "Integration tests run default environments of each id and compare no structural promises; overrides are tested for few components.",
 [S+"__init__.py", S+"envs/**/*.py", S+"utils.py"], [("gym registration", S+"__init__.py"), ("initialize / make_module / update_parameter_dict", S+"utils.py")], [], ["properties of the constructed environment"])

prop("C23", "Limits and nominal values: one physically consistent set for every state",
 "For consistent settings every state has a positive limit and a nominal value not above it; user-given limits and nominal values appear unchanged at the state of that name, and missing ones are derived as documented from the motor, load and supply. "
 "Normalised states equal the physical values divided by the limit, and the lower bound of a state's space is negative exactly if the sign capabilities of the converter's currents and voltages, the motor, load or supply permit negative values.",
 ["configurations"], "All motors, converters, loads and supplies with all subsets of user-defined limits and nominal values.",
 "Tests check the limits of default parameter sets only.",
 [S+"physical_systems/physical_systems.py", S+"physical_systems/electric_motors/*.py", S+"utils.py"],
 [("_set_limits / _build_state_space / update_state_... ", S+"physical_systems/physical_systems.py")], [], ["limits, nominal_state, state_space, returned states"])

prop("C24", "One simulation step is the documented composition of its components",
 "In every step of every environment the next state is obtained by: applying the (delayed, transformed) action to the converter, multiplying its output by the supply voltage, integrating motor and load equations over the sampling period in the converter's switching intervals, and reporting all derived quantities from the resulting state, normalised by the limits. "
 "In particular the state seen by the agent, reward, termination and next reference all refer to the same instant.",
 ["configurations", "inputs", "histories"], "All 54 environments and their component variants, all action sequences over whole episodes.",
 "Tests mock the neighbours of each component; the integration test compares one recorded rollout of three environments.",
 [S+"physical_systems/physical_systems.py", S+"core.py"], [("simulate of the SCML systems", S+"physical_systems/physical_systems.py")], [], ["state transitions"])

prop("C25", "Controller stages: control laws, saturation and anti-windup",
 "The P, I, PI, PID and three-point stages compute the documented control law of reference, state and past errors; the absolute, squared and combined clipping stages return a value inside the allowed range that equals the input whenever the input is inside and otherwise keeps the direction of jointly clipped components, and report the exact clipping difference. "
 "An integrator advances by error times sampling time exactly on the paths that were not clipped, and a reset returns every stage to its initial behaviour.",
 ["inputs", "histories", "configurations"], "All states, references, gains, limits, margins and control histories with resets.",
 "The controller package has no tests.",
 [G+"stages/**/*.py"], [("stage __call__ / reset", G+"stages")], [("integrator", "accumulated control error", G+"stages/base_controllers/i_controller.py")], ["stage outputs"])

prop("C26", "Cascaded controllers: valid actions, non-interference, episode handling",
 "A controller made for a supported environment returns for every observation an action of the environment's action space layout, without modifying the observation, by denormalising inputs with the environment's limits and passing them through speed, torque and current stage in this order; the current stage may add the machine's electromotive force and advances the field angle by the time until the voltage takes effect. "
 "Controllers share no state with each other. "
 "Controlling an environment resets environment and controller together whenever an episode terminates or reaches its maximum length, and never steps a finished episode. "
 "The controller reports the references its subordinate stages worked with in the last cycle; a dashboard of the environment shows them at the time of the state they were computed from if that was requested, and otherwise is left as it is; making a controller works with any visualization.",
 ["configurations", "histories"], "All supported environment ids and base controllers, all observations, episode lengths and step counts.",
 "The controller package has no tests.",
 [G+"gem_controller.py", G+"gem_adapter.py", G+"pi_current_controller.py", G+"torque_controller.py", G+"pi_speed_controller.py", G+"stages/input_stage.py", G+"stages/cont_output_stage.py", G+"stages/disc_output_stage.py", G+"reference_plotter.py"],
 [("control / control_environment", G+"gem_controller.py")], [], ["actions, environment call sequence"])

prop("C27", "Dashboards record the data of the steps they were shown",
 "A plot's data holds for every time point within its window the physical value of its state, reference, action or reward of exactly that step, in a window that wraps after its width; episode plots hold one entry per finished episode with its length and mean reward, step plots the cumulated number of violations, and reset and violation marks stand at the times at which they happened. "
 "Rendering takes place only once per update interval and never changes the recorded data or the environment. A console printer prints the episode that ended once, with its number, length, cumulative reward and reason, and at its update frequency the physical state and reference, reward and cumulative reward of the last step.",
 ["histories", "configurations"], "All histories of steps, resets, terminations and renders, all widths and update intervals.",
 "Dashboards have no tests of their recorded data.",
 [S+"visualization/**/*.py"], [("on_* event handlers of the plots", S+"visualization/motor_dashboard_plots")], [], ["data of the plot lines"])

prop("C28", "Ramping limit margin grows monotonically to its maximum, at the configured pace",
 "The margin imposed on the reference generator(s) starts at the initial margin, is enlarged on both sides by the step size after every configured number of steps or resets (one per episode), never shrinks within a run, never passes the maximum margin and stays there once reached. "
 "All (sub-)reference generators always have the same current margin.",
 ["histories", "configurations"], "All initial and maximum margins, step sizes, update modes and frequencies, all histories of steps and resets.",
 "Tests call the event handlers a few times on mocks with one parameter set.",
 [S+"callbacks.py"], [("RampingLimitMargin", S+"callbacks.py")], [("margin", "current margin", S+"callbacks.py")], ["margin of the generators, references produced"])

prop("C29", "DC operating point selection realises the requested torque within limits",
 "For DC machines the current references produced for a torque request realise that torque in the machine's torque equation whenever the protective limits do not intervene, and the currents handed to the current controller never exceed the current limit reduced by the safety margin. "
 "An excitation current beyond its limit is driven back instead of following the torque request.",
 ["inputs", "configurations"], "All torque requests, states, machine parameters and safety margins of the four DC machines.",
 "The controller package has no tests.",
 [G+"stages/operation_point_selection/*dc*.py", G+"torque_controller.py"], [("_select_operating_point", G+"stages/operation_point_selection"), ("clipping of the current reference", G+"torque_controller.py")], [], ["current references"])

prop("C30", "Field-oriented operating points: requested torque with least current and flux",
 "For PMSM, SynRM (torque control 'online', 'analytical' or 'interpolate'), the EESM and the induction machine (SCIM), the operating point selection turns every torque request into finite current references whose torque in the machine's torque equation never opposes the request and never exceeds it (beyond the resolution of the look-up tables), also for requests beyond the torque limit. "
 "Whenever the current limits reduced by the safety margin and the flux that the voltage permits at the present speed allow it, the references realise the requested torque with the least current (induction machine: with the flux reference of least copper losses; EESM: with the least voltage drop at its windings, i.e. sum of current magnitudes times resistances). "
 "Otherwise the flux of the references stays - where the current limits permit such a flux at all - within the flux limit set by the modulation controller (which follows the measured modulation level and starts afresh on reset); a PMSM with online torque control then realises exactly torque and flux limit or the greatest torque available at that flux. "
 "State and request are not modified. The EESM's excitation current reference lies between zero and its reduced limit.",
 ["inputs", "configurations", "histories"], "All torque requests, speeds, measured voltages and their histories, machine parameters, safety margins, modulation parameters of PMSM, SynRM, EESM and SCIM.",
 "The controller package has no tests.",
 [G+"stages/operation_point_selection/pmsm_ops.py", G+"stages/operation_point_selection/foc_operation_point_selection.py", G+"stages/operation_point_selection/scim_ops.py"], [("integrated", G+"stages/operation_point_selection/foc_operation_point_selection.py"), ("modulation_control", G+"stages/operation_point_selection/foc_operation_point_selection.py")], [], ["current references"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
