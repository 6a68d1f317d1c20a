"""Writes properties.jsonl (kept so the list stays readable and in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["python/src/" + f for f in files],
         "mechanism": [{"name": n, "where": "python/src/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "python/src/" + w} for n, m, w in state]
    a["observe_at"] = observe or ["values and times recorded by voltage and current probes at every node and segment"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every interior point obeys the discretised multiconductor line equations",
 "At every time step, every interior node voltage and every segment current of every line and bundle follows the leapfrog telegrapher equations, with the inductance, capacitance, resistance and conductance matrices of that very cell and the actual lengths of the neighbouring segments. This holds for any number of conductors, any three-dimensional polyline with any divisions, losses, a medium that changes from cell to cell, and any time step up to the default one.",
 ["inputs", "configurations"], "all parameter matrices, polylines, divisions, time steps, terminations and excitations, at every node, segment and step",
 "The tests look at a handful of uniform, mostly lossless lines at one or two probes with tolerances of percents; a wrong cell length, a transposed coupling term or a per-cell mix-up on an uneven line passes them.",
 ["mtl.py"], [("voltage update of lines and bundles", "mtl.py:advance_voltage, update_cg_terms"), ("current update of lines and bundles", "mtl.py:advance_current, update_lr_terms"), ("node and segment placement along the polyline", "mtl.py:MTL.__init__")],
 [("v, i", "node voltages and segment currents", "mtl.py"), ("l, c, r, g, du_norm", "per-cell matrices and segment lengths", "mtl.py")])

prop("C02", "Signals travel at the line's own velocities, reflect exactly, and never early",
 "On a uniform lossless line with a single propagation velocity, run at the default time step, the recorded voltages are exactly the travelling-wave (bounce-diagram) solution for the given terminations, sources and initial state. On every line, bundle and network nothing can be recorded at a point before the excitation had time to cross the cells in between, one cell per step. Sources act at the end and on the conductor they were attached to.",
 ["inputs", "configurations"], "all uniform lossless lines with any conductors and resistive ends (exactness), all networks (causality), every node and step",
 "Tests compare peak times of two or three lines with percent tolerances; exactness at every node and step and absence of precursors is not sampled.",
 ["mtl.py", "mtln.py", "networks.py"], [("order of the updates within a step", "mtl.py:step; mtln.py:step"), ("terminal updates", "mtl.py:advance_left_terminal, advance_right_terminal"), ("default time step", "mtl.py:get_max_timestep")])

prop("C03", "Line ends behave as the specified source behind its impedance",
 "At each end of a line that stands on its own, conductor by conductor and at every step, the end voltage equals the source attached there minus the drop over the series impedance given for that end (current counted into the line), including the charge stored and lost in the end cell. Scalars, one-dimensional arrays and row or column arrays of impedances describe the same terminations, zero and very large impedances included, and an end without a source behaves as the passive impedance.",
 ["inputs", "configurations"], "all impedances per conductor and end, all source positions, waveforms and time steps",
 "Tests use a few matched or symmetric resistances, mostly on one conductor with a source on the first conductor of the left end.",
 ["mtl.py"], [("terminal impedance inputs", "mtl.py:init_Zt"), ("terminal terms", "mtl.py:compute_terminal_terms"), ("terminal updates", "mtl.py:advance_left_terminal, advance_right_terminal"), ("source placement", "mtl.py:add_voltage_source")])

prop("C04", "Terminations and junctions obey Kirchhoff's laws and their component laws",
 "At every step the currents of the line ends and of all lumped elements joined at a network node sum to zero, each resistor, capacitor, series-R with parallel-LC branch, short and interconnection following its own law with its own source. This holds for any number of lines, conductors, sides and levels meeting in a network, any number of elements at one node, and any order in which levels, lines, nodes, elements and networks are given.",
 ["inputs", "configurations"], "all networks of the supported elements on all bundles and ends, every node and step",
 "Tests exercise a dozen fixed networks with one element per node in one order; combinations at a node, uneven cells, coupled ends, both sides and levels are unsampled.",
 ["networks.py", "mtln.py"], [("element stamps", "networks.py:connect_to_ground*, connect_nodes, short_*"), ("state-space advance", "networks.py:compute_v_terms, advance_voltage"), ("node numbering of bundles with several lines and levels", "networks.py:NetworkD.update_index_numbers"), ("exchange with the bundles", "networks.py:update_voltages, update_currents")],
 [("connections", "which line end each network node is", "networks.py:Network")])

prop("C05", "Passive networks never gain energy and stay bounded for ever",
 "Once the sources are quiet, the electromagnetic energy stored in lines that are terminated and joined by resistances never grows from one step to the next at any time step up to the default one, is conserved when nothing dissipates, and decays when something does. With capacitive, inductive and dispersive passive elements voltages and currents stay bounded over arbitrarily long runs and settle.",
 ["inputs", "configurations", "histories"], "all passive lines, bundles and networks, all initial excitations, runs of any length at any admissible time step",
 "Tests run a few microseconds of specific examples and compare probe values; late-time growth and energy balance are not observed.",
 ["mtl.py", "networks.py", "dispersive.py"], [("time-step bound", "mtl.py:get_max_timestep"), ("dissipative and reactive terms", "mtl.py:update_lr_terms, update_cg_terms; networks.py:compute_v_terms")])

prop("C06", "The response is linear, time-invariant and zero without excitation",
 "The response to a combination of sources (terminal, network, distributed and external field) is the same combination of the responses to each, scaled sources scale the response, and delaying every source by whole steps delays the whole response by as much. With no source and no initial state every voltage and current stays exactly zero.",
 ["inputs", "configurations"], "all problems with all supported elements, all waveforms, weights and delays",
 "Tests drive each example with one source of one amplitude starting at time zero.",
 ["mtl.py", "mtln.py", "networks.py", "dispersive.py"], [("source sampling", "mtl.py:update_sources; networks.py:update_sources"), ("linear updates", "mtl.py, networks.py, dispersive.py advance functions")])

prop("C07", "Reciprocal structures respond reciprocally",
 "For lines, bundles and junctions made of reciprocal elements (symmetric matrices, resistors, capacitors, resonant branches, shorts-free interconnections, dispersive connectors, transfer impedances acting both ways), the voltage at one terminal due to a current injected at another equals, at every step, the voltage at the second due to the same current injected at the first. This holds between any two conductors at any ends and levels.",
 ["inputs", "configurations"], "all reciprocal problems and all pairs of terminals",
 "No test excites the same structure from two places and compares.",
 ["mtl.py", "networks.py", "dispersive.py"], [("symmetric stamps", "networks.py:connect_nodes, connect_to_ground*"), ("coupled updates", "mtl.py:advance_voltage, advance_current"), ("two-way transfer impedance", "dispersive.py:add_transfer_impedance")])

prop("C08", "Results do not depend on orientation, numbering or units of the model",
 "Moving or rotating a layout in space, reversing the direction in which a line is drawn (swapping what is attached to its ends), renumbering its conductors, or scaling all impedances, or all lengths and times, by a factor changes the recorded voltages and currents only by the corresponding relabelling, sign or scale.",
 ["inputs", "configurations"], "all problems, all rigid motions, permutations, reversals and scale factors",
 "Tests use fixed layouts, nearly all along one axis, in one numbering.",
 ["mtl.py", "networks.py", "dispersive.py", "utils.py"], [("geometry", "mtl.py:MTL.__init__; utils.py"), ("ends", "mtl.py:advance_left_terminal, advance_right_terminal; networks.py:i_factor"), ("matrix updates", "mtl.py, networks.py")])

prop("C09", "Equivalent descriptions of one structure give the same results",
 "A line with impedances at its ends gives the same results as the bundle of that line with the same impedances in termination networks; conductors without mutual coupling give the same results together in one line, in several lines, in several levels without transfer impedance, or in separate bundles; dividing a straight stretch into consecutive stretches with the same cells changes nothing. Cutting a line and rejoining its conductors one to one reproduces the uncut line.",
 ["inputs", "configurations"], "all structures that can be described in more than one way",
 "Tests compare two descriptions in one or two examples with default tolerances.",
 ["mtl.py", "mtln.py", "networks.py"], [("bundle assembly from lines", "mtl.py:MTLD.__init__"), ("two implementations of lines", "mtl.py:MTL, MTLD"), ("networks", "networks.py")])

prop("C10", "A model document simulates exactly the structure it describes",
 "Running a parsed document gives, at every probe it names, the same record as the structure it describes: every cable with its own conductors, coordinates, divisions and per-unit-length data, nested as stated with the stated transfer impedances, every terminal, junction, connector, cable end, lumped element, terminal and distributed source acting on the cable, conductor and end it refers to, and every probe at its place and of its kind.",
 ["inputs", "programs"], "all documents built from the supported materials, connectors, terminations, junctions, sources and probes",
 "The tests parse some fifteen hand-written documents and mostly look at one probe of each.",
 ["jsonParser.py", "mtl.py", "mtln.py", "networks.py"], [("document interpretation", "jsonParser.py:_buildBundles, _buildTerminations, _buildJunctions, _addSources, _addProbes, _setBundleTransferImpedance, _addConnectorsResistance, _addLumpedElement"), ("run entry points", "jsonParser.py:run, runWithExternalField")],
 observe=["records of the probes named in the document"])

prop("C11", "A document's meaning does not depend on its order, names or numbering",
 "Permuting the lists of a document (coordinates, elements, materials, cables, bundles, terminations, junctions, sources, probes, end connectors, lumped elements), renumbering its coordinates, elements and materials consistently, renaming its cables, bundles and probes, or adding entries that nothing refers to, leaves every probe record unchanged. Loading the same document twice, in any process, gives identical records.",
 ["inputs", "programs", "configurations"], "all documents and all consistent permutations, renumberings and renamings",
 "Each test document exists in exactly one order and numbering.",
 ["jsonParser.py"], [("lookups by identifier", "jsonParser.py:_get*"), ("order of cables in a level", "jsonParser.py:_buildBundles"), ("grouping by coordinate", "jsonParser.py:_getNetworkTerminationList, _getNetworkJunctionList")],
 observe=["records of the probes named in the document"])

prop("C12", "Probes record exactly what the line did, where and when they say",
 "A run of given duration records one sample per completed step for every probe: a voltage probe the voltages of all conductors at the node nearest to its position at the time just reached, a current probe the currents of the segment starting there (the last one at the far end) half a step later. Probing does not influence the simulation, and probes on any point of the line are accepted and independent of one another.",
 ["inputs", "histories"], "all probe positions, kinds, counts, times of attachment, run durations and time steps",
 "Tests check a probe's time axis and a few values at line ends.",
 ["probes.py", "mtl.py", "mtln.py"], [("recording", "probes.py:Probe"), ("attachment", "mtl.py:add_probe"), ("per-run preparation", "mtl.py:run_until; mtln.py:run_until")],
 observe=["probe times and values, and the state of the line after each step"])

prop("C13", "Runs compose, repeat exactly and do not interfere",
 "Running in several consecutive pieces gives the same history as one run of the same number of steps, and the number of steps is the duration over the time step rounded down. Building and running the same model again gives identical records, models that are not connected never influence one another, the caller's arrays and dictionaries are left unmodified, a clean copy behaves as a fresh line and leaves the original alone. All bundles of a network advance with one common time step: the one given, or the smallest default among them.",
 ["histories", "configurations", "inputs"], "all models, all ways of splitting a run, all interleavings of independent models",
 "Tests build one model, run it once and discard it.",
 ["mtl.py", "mtln.py", "networks.py", "dispersive.py"], [("run entry points", "mtl.py:run_until; mtln.py:run_until"), ("common time step", "mtln.py:add_bundle, run_until"), ("copies", "mtl.py:create_clean_copy")],
 [("v, i, time, phi, network state", "state carried from one piece of a run to the next", "mtl.py, networks.py, dispersive.py")])

prop("C14", "A dispersive connector adds exactly its series impedance where it is placed",
 "A lumped dispersive connector on a conductor adds to that conductor, at the segment starting at the nearest node (the last one at the far end) and nowhere else, the series impedance it specifies: constant, proportional to frequency, and any number of real or complex-conjugate pole-residue terms, convolved exactly for a piecewise-linear current. Several connectors on different conductors or segments act independently, at any time step used for the run.",
 ["inputs", "configurations", "histories"], "all models, positions, conductors, combinations of connectors, time steps and current histories",
 "Tests use four models, one connector in the middle of a single-conductor uniform line each, compared with circuit simulations within percents.",
 ["dispersive.py", "mtl.py"], [("model placement", "dispersive.py:add_dispersive_connector"), ("recursive convolution", "dispersive.py:set_time_step, update_q3_phi_term, update_phi"), ("use in the current update", "mtl.py:update_lr_terms, advance_current")],
 [("phi", "memory of the convolution", "dispersive.py")])

prop("C15", "Transfer impedance couples exactly the chosen conductors, way and amount",
 "A transfer impedance between conductors of adjacent levels induces in each receiving conductor, in every segment, the per-unit-length voltage of its full frequency-dependent impedance times the current of the driving conductor, divided by its factor if one is given; inwards, outwards or both ways as stated, and nothing in any other conductor. Several couplings add up, one given for a cable end replaces the value of the segment at that end only, and one that is zero changes nothing.",
 ["inputs", "configurations"], "all levels, conductor sets, directions, models, factors, end overrides and current histories",
 "Tests use a few bundles, mostly with constant or proportional terms and the inward direction.",
 ["dispersive.py", "mtl.py", "jsonParser.py"], [("coupling terms", "dispersive.py:add_transfer_impedance, set_transfer_impedance_at_index"), ("memory", "dispersive.py:update_phi, update_q3_phi_term"), ("bundle assembly", "mtl.py:MTLD")])

prop("C16", "A localized field drives its conductor with field times covered length",
 "A longitudinal field localized between two points of a bundle acts on the chosen conductor only, each segment receiving the field in proportion to the part of it that lies between the two points, so that the total electromotive force is the field times the distance along the cable, whatever the divisions. Sources on the same or other conductors add up, and a source over a stretch equals the sources over its parts together.",
 ["inputs", "configurations"], "all polylines, divisions, stretches, conductors, waveforms and combinations",
 "Tests cover one document whose source spans whole cells of a uniform cable.",
 ["mtl.py", "utils.py", "jsonParser.py"], [("coverage of segments", "mtl.py:add_localized_longitudinal_field; utils.py:length_to_point"), ("current update", "mtl.py:advance_current")])

prop("C17", "External fields couple through the wire-to-reference field difference",
 "An incident field drives each conductor with the difference, at mid segment, between the field along the wire at the conductor's place and at the reference, and through the field integrated along the straight separation at each node, each at its own position and time; conductors without separation are not driven. Fields act together with all other sources, on the conductors of the outermost cable of a bundle, and a field limited to a stretch acts on the segments and nodes of that stretch only. A plane wave given by its angles is such a field, across its direction and travelling at the line's highest velocity.",
 ["inputs", "configurations"], "all incident fields, separations, polylines, stretches and combinations with other sources",
 "Tests use one double-exponential plane wave on straight two-conductor lines.",
 ["mtl.py", "mtln.py", "networks.py", "jsonParser.py"], [("field sampling", "mtl.py:Field, add_external_field"), ("line updates", "mtl.py:update_sources, advance_voltage, advance_current, advance_*_terminal"), ("network nodes", "networks.py:update_e_T, advance_voltage")])

prop("C18", "Excitation waveforms have the shape their parameters state",
 "Every excitation waveform returns at every instant the value of its definition (exponential, gaussian, square, triangle, squared sine, sine, periodic trapezoid, ramp, double exponential), including at its corners, before its start and over many periods, for scalars and arrays alike. The symbolic variant of a waveform has the same values as the numeric one, shifted by position over velocity where it depends on position, and a source of a document drives its place with the waveform it names.",
 ["inputs"], "all parameters and all instants",
 "Tests use waveforms as drives but never compare them with their definition.",
 ["waveforms.py", "jsonParser.py"], [("waveforms", "waveforms.py"), ("sources of a document", "jsonParser.py:_buildSource")],
 observe=["values returned by the waveform functions"])

prop("C19", "Extracted scattering parameters are those of the line between its ports",
 "The two-port parameters extracted from a line are the ratios of emergent to incident power waves, referred to the terminating impedance of each port, at the first and last segment of the line, and they agree with transmission-line theory within the discretisation error. They are the same for whichever conductor, end and order is chosen for the ports, symmetric for a reciprocal line, and extraction leaves the line it was given unchanged.",
 ["inputs", "configurations"], "all lines, reference impedances, ports, frequency ranges and durations",
 "Tests compare two reference lines from left to right.",
 ["networkExtraction.py", "probes.py", "mtl.py"], [("extraction", "networkExtraction.py"), ("port waves", "probes.py:Port"), ("port placement", "mtl.py:add_port_probe")],
 observe=["returned network and port waves"])

prop("C20", "Phase velocities and default time step follow from the line parameters",
 "The phase velocities reported for each cell are one over the square root of the eigenvalues of the product of that cell's inductance matrix and the capacitance matrix at its far node, for lines and bundles alike, whether the medium is uniform or changes from cell to cell. The default time step is the length of the shortest segment over the highest velocity; a bundle takes the smallest of its lines, a network the smallest of its bundles, and a time step set by number of divisions is the duration over that number.",
 ["inputs", "configurations"], "all parameter matrices, polylines, divisions, and assemblies of lines into bundles and networks",
 "Tests check the velocities of three fixed lines.",
 ["mtl.py", "mtln.py"], [("velocities", "mtl.py:get_phase_velocities"), ("time step", "mtl.py:get_max_timestep, set_time_step; mtln.py:add_bundle")],
 observe=["reported velocities and time steps"])

prop("C21", "A localized loss has its total value on its conductor and stretch only",
 "A resistance or conductance set at a point or along a stretch of a line or bundle acts on the chosen conductor only, on the cells between the nodes nearest to the given points (at least one), and its contributions over those cells sum to the given total whatever the division, so that the steady response to a constant excitation is that of the equivalent resistive circuit. It takes effect for line ends and network nodes too, and everywhere else the line keeps its own losses.",
 ["inputs", "configurations"], "all stretches, conductors, values, polylines and divisions, set before or between runs",
 "Tests insert one resistance in the middle of one uniform line.",
 ["mtl.py", "networks.py"], [("localized losses", "mtl.py:set_resistance_in_region, set_resistance_at_point, add_conductance_in_region, add_conductance_at_point"), ("terms", "mtl.py:update_lr_terms, update_cg_terms, compute_terminal_terms; networks.py:update_g")])

prop("C22", "Malformed models are rejected instead of simulated",
 "Inconsistent matrix sizes or types, end impedances of the wrong size, divisions that do not match the stretches, dispersive models with unequal numbers of poles and residues, probes, connectors and localized sources off the line, two dispersive connectors on one conductor and segment, couplings between non-adjacent levels or of unknown direction, network nodes that are repeated, negative or unknown, zero-resistance interconnections, lines of different shape in one bundle, bundles with equal names, sources and references of unknown kind in documents, all raise an error and leave the model unchanged.",
 ["inputs", "programs"], "all models with one of the listed faults at any place",
 "Three or four rejections are tested at one value each.",
 ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "jsonParser.py", "utils.py"], [("validation", "mtl.py:init_LC, init_RG, init_Zt, MTL.__init__, add_probe; utils.py:point_in_polyline"), ("network validation", "networks.py:_add_node, connect_nodes"), ("document validation", "jsonParser.py")],
 observe=["exceptions raised, and the state of the model afterwards"])

prop("C23", "A model may be completed between runs, its parts given in any order",
 "Line-end sources, network elements and interconnections, dispersive connectors, couplings, localized losses, localized and incident fields and probes may be given one by one, in any order and before the first run or between runs: each acts from the next step on, in that run and in later ones, together with everything given before and the state reached so far, and nothing that was given earlier is lost or given twice. A source given again to the same end of a line replaces the former one, and a run may use another time step than the one before.",
 ["histories", "configurations"], "all structures, all orders and moments of giving their parts, all divisions of the simulated time into runs and time steps",
 "Tests give every part once, in one customary order, and run the model once.",
 ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "probes.py"], [("terms that must follow the parts", "mtl.py:update_lr_terms, update_cg_terms, compute_terminal_terms, update_sources; networks.py:compute_v_terms, update_e_T, update_g"), ("per-run preparation", "mtl.py:run_until; mtln.py:run_until"), ("memory of the convolution", "dispersive.py:set_time_step, update_phi")],
 [("v, i, time, phi, network state", "state carried over while parts are added", "mtl.py, networks.py, dispersive.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
