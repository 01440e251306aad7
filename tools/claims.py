T = "TLA+ (TLC): "
CLAIMS = {
"C01": (T + "exhaustive protocol model; TLC-enumerated call histories replayed on real environments; trace validation",
        "All call histories up to length 4 (quick) / 5 (thorough) over 8 calls on 3 environments, long random histories and limit-driven episodes on all 54 ids.", False),
}
NOT_APPLICABLE = {
}
CLAIMS["C02"] = (T + "exhaustive protocol model with event log; TLC-enumerated histories replayed with recording callbacks; trace validation of every delivered event",
        "All call histories up to length 3 (quick) / 4 (thorough), long random ones on all 54 ids, 1-4 callbacks/visualizations, state filters.", False)
CLAIMS["C16"] = (T + "machine equations as TLA+ operators, energy balance model-checked on a grid; trace validation of the public motor functions",
        "Equations, torque, input current and Jacobian (as exact difference of the model) at random operating points of all nine machines with random partial parameter sets; relative tolerance 1e-7.", True)
CLAIMS["C18"] = (T + "load model checked on a parameter grid (dissipative, continuous, exact slope); trace validation of load objects and of simulated systems",
        "Acceleration, Jacobian, inertia, limits and initial speeds of all four loads at random points incl. the linear zone; speed trajectories of all motors with each load.", True)
CLAIMS["C19"] = (T + "supply model (RC difference equation, sinusoids) explored exhaustively for short load histories; trace validation of supplies alone and inside systems",
        "Random parameters, times and currents, several episodes; every call a simulated system makes to its supply is checked for time, value and reported state.", True)
CLAIMS["C20"] = (T + "solver life-cycle model (restart, inputs, integrate) with Euler/Runge-Kutta semantics; trace validation of 18 solver configurations and of whole systems under 6 solvers",
        "Random linear, forced and nonlinear systems of dimension 1-3, random schedules of inputs and restarts, evaluation times and aliasing monitored.", True)
CLAIMS["C07"] = (T + "switching-cell state machine with interlocking model-checked (dead time kept, power balance); trace validation of enumerated and random action histories",
        "All action sequences of length 2-4 of the four elementary converters, long random histories of them and of ten multi-converter combinations; output, supply current, switching times, refusals.", True)
CLAIMS["C08"] = (T + "mean-value converter model checked on a grid (range, power balance, loss opposes current); trace validation of random command histories",
        "Commands inside and outside the range, all signs of the current, interlocking times, multi converters. Known finding: loss of the continuous 4QC cancels.", True)
CLAIMS["C24"] = (T + "whole-drive simulation step (switching sections, supply, converter, motor, load, transformations) as TLA+ operator, model-checked on small drives; trace validation of every state entry of every step",
        "72 (quick) random systems over all nine machines, both control sets, four loads, three supplies, interlocking, sub-stepping, dq control space; several episodes each; explicit Euler solver so that the specification predicts to 1e-7.", True)
CLAIMS["C06"] = (T + "clock model of a drive with switching intervals, explored exhaustively; trace validation of every time handed to converter, supply, speed profile and solver",
        "All 54 ids, random sampling times, interlocking, wrappers, one-step solvers, several episodes with and without seed.", True)
CLAIMS["C03"] = (T + "self-composition model of seeded random streams; TLC-enumerated call histories replayed on environments with every random component; answers checked to be functions of (configuration, seed, calls)",
        "54 ids with default random references plus 35 environments covering every random component; histories of 3 calls from an enumerated set of 216, episode lengths varied, global generators disturbed; digests bit by bit.", False)
CLAIMS["C05"] = (T + "self-composition model of component memory; TLC-enumerated histories before a reset; answers checked to be functions of the episode's actions, and episodes predicted from the defined initial values by the drive specification",
        "144 deterministic environments (machine x control set x solver, interlocking, RC supply, dead time, flux observer), the random ones with equal seeds, and specification-predicted short episodes.", True)
CLAIMS["C04"] = (T + "interleaving model of instances executing their programs (all 210 + 560 schedules enumerated by TLC); schedules replayed in fresh processes, answers checked to be functions of the instance's own calls",
        "130 (quick) / 710 (thorough) schedules over 2-3 of 90 configurations (same machine families preferred, shared user dictionaries, component construction in between); reference: the instance alone in its own process.", False)
CLAIMS["C21"] = (T + "model of configured starts (names in any order, intervals, redraw) explored exhaustively; trace validation of solver state, full state vector and derived quantities after every reset",
        "Nine machines x both control sets x {constant, uniform, gaussian, default} motor starts x load starts, 4-60 episodes each; constants outside the nominal range must be refused, not altered.", True)
CLAIMS["C23"] = (T + "model of limit derivation over all machines and user settings explored exhaustively; trace validation of limits, nominal values, spaces and normalised states",
        "216 (quick) / 2700 (thorough) random consistent settings over nine machines, both control sets, general and specific quantities, load limits, open limits, supplies; all 54 registered ids.", True)
CLAIMS["C17"] = (T + "transformations and dq commands through a dead time to a rotating machine, model-checked on a grid; trace validation of the public functions, of every returned state of three-phase systems and of applied dq commands",
        "Random vectors and angles (multi-turn, normed, mechanical); 30 AC ids and random solvers/loads/sampling times; dq processor with dead time 0-5 in three stacking orders, dq control space.", True)
CLAIMS["C09"] = (T + "FIFO of actions with resets, buffers shared by the caller and delays in series explored exhaustively; TLC-enumerated histories replayed through real environments with probes on both sides of the processor",
        "11 systems of all action-space kinds, delays 1,2,3,5 and 1+2 in series, default and custom reset actions, fresh and overwritten action arrays, several (aborted) episodes.", False)
CLAIMS["C10"] = (T + "layout algebra of wrapper stacks and flux observer dynamics explored exhaustively for all stacks up to depth 3; the enumerated stacks are built with the real wrappers and names, limits, spaces and every state validated level by level",
        "All 253 (depth 3; thorough: 1138, depth 4) consistent stacks of ten wrapper variants on induction machines, samples on the other machines, with random options, sampling times and motor parameters. Known finding: state space of the flux observer.", True)
CLAIMS["C11"] = (T + "violation degrees and merging model-checked over all small settings; trace validation of constraint monitors asked about arbitrary states and of environments run to violation",
        "Random sets of names, limit, squared, function and user-class constraints on all 54 ids (with state-changing wrappers), max/product/user merge; degree, termination and the degree the reward receives.", True)
CLAIMS["C12"] = (T + "reward formula, range, bias, default violation reward and blending model-checked over all small settings; trace validation of the reward function asked directly and of environments' rewards",
        "Random weights (default, dict, list, array), powers, biases, gamma, violation rewards, partial degrees, references on any set of states, all 54 ids.", True)
CLAIMS["C13"] = (T + "sub-episode machine, waveforms and random walks under a (ramping) margin explored exhaustively; trace validation of whole reference histories, each sub-episode against its waveform with a witness for the drawn parameters",
        "All generator kinds, margins, fixed and random parameters, amplitudes beyond the margin, episode lengths from 1 sample, several episodes; moments of the random processes.", True)
CLAIMS["C14"] = (T + "switched reference as state machine over its parts explored exhaustively; trace validation with transparent observers around every part",
        "Random sets of parts of all kinds (also nested), probabilities (zero included), super-episode ranges, histories of up to 600 steps in four episodes.", True)
CLAIMS["C28"] = (T + "ramping margin explored together with the sub-episode machine; trace validation of references that equal the margin in force",
        "Random initial/maximum margins, step sizes, frequencies and both update modes, in real environments with terminations; single and switched generators.", True)
CLAIMS["C15"] = (T + "filters over systems changed by wrappers and the announce/take pipeline of references explored exhaustively; trace validation of everything environments show, against the full state and reference that callbacks and the reward function receive",
        "Random filters (order, subsets), wrappers, generators (leaf, multiple, switched, nested), loads and converters on all 54 ids; returned arrays re-read later and overwritten by the caller. Known finding: current below zero with one-quadrant converters.", True)
CLAIMS["C22"] = (T + "table of all 54 ids and override resolution as TLA+ operators, model-checked over histories of makes; every row is assembled from its components and compared with the registered environment, overrides included",
        "All 54 ids; every component overridden as object and as dictionary (all at once and in random sets), explicit None, classes and strings refused, pass-through arguments; spaces, names, limits, reward range and seeded trajectories bit by bit; default again after overrides.", True)
CLAIMS["C25"] = (T + "cascade of saturated PI/PID loops with resets explored exhaustively on an integer grid; trace validation of single stages with arbitrary gains and of every stage inside complete controllers",
        "Random gains, states on and off the hysteresis, anti-windup in all tasks, clipping stages tuned to eight machines with random margins, 68 complete cascades (quick) following the integrators cycle by cycle.", True)
CLAIMS["C26"] = (T + "cascade model and protocol of controller and environment model-checked (all scripts of outcomes up to 8 steps); enumerated scripts replayed through control_environment; trace validation of every cycle of complete controllers stage by stage",
        "34 supported ids x all base controllers, margins, decoupling, parameters, sampling times; 136 cascades and twins, 485 scripted and 6 real episode histories, 34 controllers with dashboard, printer or custom visualization (quick).", True)
CLAIMS["C29"] = (T + "operating points of the DC machines model-checked on a grid of requests, speeds and excitations; trace validation of the selection stage and of complete torque controllers against the machines' torque equations",
        "Random machine parameters, limits, margins, excitation policies, states at, near and beyond protective limits.", True)
CLAIMS["C27"] = (T + "dashboard as a state machine of resets, steps, terminations, renderings and cleared figures, model-checked; enumerated and random histories replayed through environments with dashboards and the drawn lines validated against the specification; twins without dashboard; console printer as a second state machine, its printed lines parsed and validated",
        "All histories of five (thorough: six) operations after the first reset, sampled in quick; 13 environments, random selections of plots, widths, update intervals, render modes; lines, marks, windows and episode plots read from the matplotlib axes.", True)
CLAIMS["C30"] = (T + "modulation controller as a state machine and least-current / least-loss operators model-checked on a grid of machines and requests; trace validation of the operating point selection against torque, flux and current of the machine equations",
        "Random machine parameters (also l_d = l_q and l_q < l_d), margins, modulation parameters, histories of requests at, beyond and below the limits; PMSM and SynRM online, analytical, interpolate; SCIM with a recording flux controller. Judged to the resolution of the tables. EESM: one random machine (quick), flux, torque, loss and current limits of the references. SynRM under flux limit: flux and sign only.", True)
