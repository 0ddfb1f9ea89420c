"""Writes /verif/properties.jsonl (kept as code so that the list stays easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['pygfunction/'+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop('A01', 'Load aggregation conserves the injected energy of every heat source',
 'For every load aggregation scheme, advancing the simulation by one time step neither creates, destroys nor transfers between sources any energy: for each source the sum over aggregation cells of (cell load x time steps represented) is unchanged by the step, except energy that leaves past the last cell of the Claesson-Javed scheme. '
 'Aggregated loads stay within the range of the loads that were set (zero included), and setting the current load changes only the most recent cell.',
 ['histories', 'inputs'], 'all cell layouts (any cell counts >= 1), any number of sources, any load history of any length',
 'Tests run one synthetic load profile per scheme and compare the temperatures of the whole run with a stored number; they sample one history and one cell layout and never look at the conserved quantity.',
 ['load_aggregation.py', 'utilities.py'],
 [('ClaessonJaved.next_time_step / _build_cells (shift matrix)', 'load_aggregation.py'), ('MLAA.next_time_step', 'load_aggregation.py'), ('Liu.next_time_step', 'load_aggregation.py')],
 [('q_b, A', 'aggregated loads and the shift matrix (Claesson-Javed)', 'load_aggregation.ClaessonJaved'), ('Q0..Q4, _n0.._n4', 'cells and their widths', 'load_aggregation.MLAA / Liu')],
 ['loads held by the aggregation object before and after next_time_step/set_current_load'])

prop('A02', 'Load aggregation superposes the supplied step responses exactly',
 'The temperature change returned by every load aggregation scheme is the sum, over all pairs of sources and all aggregation cells, of the aggregated load times the difference of the supplied thermal response factors at the two ends of that cell. '
 'Consequently it is linear in the loads, and (with sources held at constant loads in all cells) it equals the response factors at the elapsed time times those loads, for every source.',
 ['histories', 'inputs'], 'all response factor tables, numbers of sources, cell layouts and aggregated load states reachable by stepping',
 'Tests check one stored temperature trajectory per scheme; superposition is a statement about every load state, source pair and response-factor table.',
 ['load_aggregation.py'],
 [('initialize / temporal_superposition of ClaessonJaved, MLAA, Liu', 'load_aggregation.py')],
 [('dg, g_d', 'response factor increments / factors', 'load_aggregation')],
 ['return value of temporal_superposition'])

prop('A03', 'Simulation time grids are increasing, anchored and cover the simulation',
 'Every time discretization starts at one time step, is strictly increasing, has steps that never shrink and that follow the documented widths (doubling after each level, doubling after the non-expanding cells, or geometric expansion; the last step of a geometric grid absorbs the tolerance of the expansion rate), and reaches at least the requested maximum time, without any superfluous cell beyond it. '
 'Geometric grids have exactly the requested number of values and end at the maximum time whenever it exceeds that number of uniform steps; the aggregation schemes request their response factors on exactly such grids.',
 ['inputs'], 'all positive time steps, maximum times and cell counts',
 'Tests compare four short vectors with stored numbers; coverage and monotonicity concern every length, including the loop exit conditions.',
 ['utilities.py', 'load_aggregation.py'],
 [('time_ClaessonJaved, time_MarcottePasquier, time_geometric', 'utilities.py'), ('get_times_for_simulation', 'load_aggregation.py')], (),
 ['returned time arrays'])

prop('B01', 'Borehole discretization ratios are positive, symmetric and fill the borehole',
 'For every valid number of segments and end-length ratio, the returned segment length ratios are as many as requested, strictly positive, symmetric about mid-length, and add up to one (to 1e-6). '
 'With more than three non-uniform segments they start with the requested end ratio and expand by one constant factor towards the middle; otherwise a ratio vector is never silently returned that violates this.',
 ['inputs'], 'all integers nSegments >= 1 and all end-length ratios in (0, 0.5), whatever roots the polynomial solver returns',
 'Tests sample a handful of (nSegments, ratio) pairs; the guarantee also depends on which polynomial roots the numerical solver returns.',
 ['utilities.py'], [('segment_ratios', 'utilities.py')], (), ['returned array'])

prop('B02', 'Segments tile their borehole',
 'Splitting any borehole (or equivalent borehole) yields segments in order from the top whose lengths are the requested fractions of the borehole and add up to its length, each starting where the previous one ends, along the same tilted axis, with the same radius, tilt and orientation. '
 'Edges and mid-points reported for the same discretization lie on that same tiling, from 0 to the borehole length.',
 ['inputs'], 'all borehole dimensions, tilts, orientations, numbers of segments and ratio vectors',
 'Tests check a few discretizations; contiguity is a statement about every segment index and every ratio vector.',
 ['boreholes.py'], [('Borehole.segments/_segment_edges/_segment_midpoints', 'boreholes.py'), ('_EquivalentBorehole.segments', 'boreholes.py')], (),
 ['returned borehole objects and arrays'])

prop('B03', 'Borefields and borehole lists describe the same boreholes',
 'Building a borefield from boreholes or from (possibly scalar, broadcast) coordinate arrays, indexing or slicing it, iterating over it, adding borefields or boreholes on either side, converting it back to boreholes and writing it to and reading it from a file preserve the number, the order and all seven parameters of every borehole. '
 'Equality holds exactly for borefields whose boreholes agree one by one, and the operands of these operations are left unchanged.',
 ['inputs', 'histories'], 'all borefields, all mixes of scalar and array arguments, all index expressions and all sequences of such operations',
 'Tests use fixed small fields; round trips and broadcasting concern arbitrary fields and mixes of operand types.',
 ['borefield.py', 'boreholes.py'],
 [('Borefield.__init__, __getitem__, __add__, from_boreholes, to_boreholes, from_file, to_file', 'borefield.py')],
 [('H, D, r_b, x, y, tilt, orientation', 'parameter arrays of equal length', 'Borefield')], ['public attributes and returned objects'])

prop('B04', 'Regular bore field layouts have the documented boreholes',
 'Each predefined layout (rectangular, staggered, dense, box, U, L, circle) contains exactly the documented number of boreholes at the documented spacings, without duplicates, all with the requested length, depth, radius and tilt. '
 'Tilted boreholes lean horizontally away from the layout centre; boreholes at the centre, and all boreholes when the tilt is zero, are vertical.',
 ['inputs', 'configurations'], 'all layout sizes, spacings, tilts, and centre positions; both the current and the deprecated constructors',
 'Tests sample a few sizes per layout; counts, spacing and edge sizes (1 row, even/odd, last borehole included) are universally quantified.',
 ['borefield.py', 'boreholes.py'],
 [('Borefield.rectangle_field ... circle_field', 'borefield.py'), ('rectangle_field ... circle_field (deprecated)', 'boreholes.py')], (), ['borefield arrays'])

prop('B05', 'Borehole distances, duplicates and equivalent-distance weights are exact',
 'The distance between two boreholes is symmetric and never below the borehole radius; duplicates are detected exactly when two boreholes coincide within the radius, and removing duplicates keeps one borehole from each coincident group. '
 'For groups of boreholes represented by one equivalent borehole, the list of distinct distances covers every pair of boreholes within tolerance, in increasing order, and the counts attached to it account for every pair exactly once.',
 ['inputs'], 'all sets of boreholes and positions',
 'Tests use two or three fixed configurations; the counting guarantee concerns every set of positions and tolerance.',
 ['boreholes.py', 'solvers/equivalent.py'],
 [('Borehole.distance, _EquivalentBorehole.distance/unique_distance', 'boreholes.py'), ('find_duplicates, remove_duplicates', 'boreholes.py'), ('_find_unique_distances', 'solvers/equivalent.py')], (), ['return values'])

prop('H01', 'Finite line source responses obey reciprocity',
 'For any two boreholes, vertical or inclined, the mean response of the second to the first times the length of the second equals the mean response of the first to the second times the length of the first, at any time and at steady state, for the real part, the image part and their sum, exactly and for the approximate evaluation.',
 ['inputs'], 'all borehole geometries, positions, diffusivities and times, and all evaluation options',
 'Tests compare values against stored numbers for two boreholes; reciprocity quantifies over all geometries and options.',
 ['heat_transfer.py'], [('_finite_line_source_integrand, _finite_line_source_steady_state, finite_line_source_approximation and the inclined versions', 'heat_transfer.py')], (), ['return values of the response functions'])

prop('H02', 'Finite line source evaluations agree whichever way they are requested',
 'The full finite line source response equals the sum of its real and image parts, is unaffected by translating the field horizontally or by exchanging source and image roles, and the scalar, array-of-times, list-of-boreholes, vectorized, equivalent-borehole and approximate entry points evaluate the same function. '
 'Requesting neither part returns zero.',
 ['inputs', 'configurations'], 'all geometries, times and option combinations',
 'Tests pin one or two geometries per entry point with stored values; agreement of the entry points quantifies over all of them.',
 ['heat_transfer.py', 'utilities.py'], [('finite_line_source*, _finite_line_source_*', 'heat_transfer.py'), ('erfint, exp1', 'utilities.py')], (), ['return values'])

prop('P01', 'Heat given up by the fluid equals heat extracted along the borehole',
 'For every borehole piping configuration, the heat gained by the fluid (mass flow rate x heat capacity x (outlet - inlet temperature), summed over circuits) equals the sum of the heat extraction rates of the borehole segments and the reported fluid and total heat extraction rates. '
 'This holds for every flow direction, discretization and borehole wall temperature profile, and for pipe models that do not allow flow reversal the sign of the mass flow rate has no effect.',
 ['inputs', 'configurations'], 'all pipe types, thermal resistances, flow rates of either sign, numbers of segments, ratios and temperatures',
 'Tests compare stored values for a few configurations; energy conservation is a statement about every input.',
 ['pipes.py'], [('coefficients_borehole_heat_extraction_rate, coefficients_fluid_heat_extraction_rate, coefficients_outlet_temperature', 'pipes.py')], (), ['get_* methods of pipe models'])

prop('P02', 'Fluid temperature profiles meet inlet, outlet, junction and bottom conditions',
 'The fluid temperature profile returned for a borehole starts at the inlet temperature, ends at the returned outlet temperature, is continuous at the bottom of each U-tube and through series connections, and equals the wall temperature everywhere when inlet and wall temperatures are all equal. '
 'The inlet temperature obtained from a heat extraction rate reproduces that rate, and all returned quantities are the stated linear functions of inlet and wall temperatures.',
 ['inputs', 'configurations'], 'all pipe types, series/parallel connections, flow directions, discretizations and temperatures',
 'Tests pin stored values; boundary conditions must hold for all inputs and all depths.',
 ['pipes.py'], [('_BasePipe.get_*, coefficients_*; _continuity_condition*, _general_solution, _flow_direction, _pipe_connectivity of every pipe class', 'pipes.py')], (), ['get_temperature, get_outlet_temperature, get_inlet_temperature'])

prop('P03', 'Thermal resistances of a borehole are symmetric and consistent',
 'The matrix of fluid-to-borehole-wall resistances is symmetric for symmetric inputs, the delta-circuit derived from it satisfies the same linear relation between pipe temperatures and heat flows, and raising the fluid-to-pipe resistance by some amount raises exactly the corresponding self-resistances by that amount (line-source order). '
 'The local and effective borehole resistances follow from the delta-circuit and from the outlet temperature with uniform wall temperature, and do not depend on flow direction for symmetric U-tubes.',
 ['inputs'], 'all pipe layouts, radii, conductivities, fluid-to-pipe resistances and flow rates',
 'Tests pin stored values for a few layouts; symmetry and consistency quantify over all layouts.',
 ['pipes.py'], [('thermal_resistances, multipole', 'pipes.py'), ('update_thermal_resistances, local/effective_borehole_thermal_resistance', 'pipes.py')], (), ['returned matrices'])

prop('P04', 'Invalid borehole, pipe and network definitions are rejected',
 'A pipe model is only created when conductivities, resistances and radii are positive, outer radii exceed inner radii, pipes fit entirely within the borehole and do not overlap (coaxial pipes fit into each other); a network is only created when it has one valid connection per borehole, no circular connection and no borehole feeding two others. '
 'Every definition violating one of these is rejected with an error, and every definition satisfying them is accepted.',
 ['inputs', 'configurations'], 'all pipe geometries and all connection lists of any size',
 'Tests build valid objects only; rejection quantifies over all invalid definitions.',
 ['pipes.py', 'networks.py'], [('_check_geometry', 'pipes.py'), ('_verify_bore_connectivity', 'networks.py')], (), ['constructors'])

prop('N01', 'Networks of boreholes conserve energy',
 'For every network of boreholes in series and parallel, the heat extraction rate of the network equals the sum of those of its boreholes and of all its segments, and equals the mass flow rate times heat capacity times (network outlet - inlet temperature). '
 'The network outlet temperature is the flow-weighted mix of the outlet temperatures of its circuits, and the inlet temperature obtained from a network heat extraction rate reproduces that rate.',
 ['inputs', 'configurations'], 'all connectivities, flow rates of either sign per network or per circuit, discretizations and temperatures',
 'Tests pin stored values for three connectivities with equal flow rates; conservation concerns every topology and flow split.',
 ['networks.py'], [('coefficients_network_*, coefficients_*; _coefficients_mixing', 'networks.py')], (), ['get_* methods of networks'])

prop('N02', 'Every borehole of a network is fed by the borehole it is connected to',
 'In every network, the inlet temperature of each borehole equals the network inlet temperature if it is connected to the inlet, and otherwise the outlet temperature of the borehole it is declared to follow; each borehole carries the mass flow rate of the circuit that feeds it. '
 'Each borehole belongs to exactly one circuit per inlet connection, and the outlets are exactly the boreholes that feed no other.',
 ['inputs', 'configurations'], 'all acyclic connection lists, flow rates and temperatures',
 'Tests cover three fixed connection lists; the guarantee is over all topologies and orders of numbering.',
 ['networks.py'], [('_initialize_coefficients_connectivity, _format_inputs, coefficients_inlet_temperature, coefficients_outlet_temperature', 'networks.py'), ('_find_inlets_outlets, _path_to_inlet', 'networks.py')], (), ['get_inlet_temperature, get_outlet_temperature of networks'])

prop('C01', 'Results never depend on previous queries',
 'Whatever sequence of queries (any quantities, flow rates, flow directions, fluid heat capacities, discretizations) was made before, each query on a pipe model, a network or the thermal resistance functions returns what a freshly created object returns for the same arguments (to the stated 1e-6 reuse tolerance). '
 'Queries do not modify their arguments, and modifying an argument after a query does not change later results.',
 ['histories', 'inputs'], 'all finite sequences of queries with all argument values on one object or on the module',
 'Tests query fresh objects; stale reuse needs a particular sequence of different queries.',
 ['pipes.py', 'networks.py'], [('_check_coefficients, _set_stored_coefficients, _check_model_variables', 'pipes.py / networks.py'), ('_compare_thermal_resistances_inputs and the stored resistances', 'pipes.py')],
 [('_stored_*', 'results stored with the arguments they were computed for', 'pipes._BasePipe, networks.Network'), ('_m_flow_cp_model_variables ...', 'arguments of the current model variables', 'pipes, networks')], ['all public query methods'])

prop('S01', 'g-function solutions extract the prescribed total heat at all times',
 'For every boundary condition and at every requested time (including times evaluated by linear extrapolation to zero), the length-weighted mean of the segment heat extraction rates equals the prescribed unit rate, and the reconstructed load history contains the energy extracted so far. '
 'Reported mean borehole rates are the length-weighted means of the segment rates.',
 ['inputs', 'histories'], 'all bore fields, discretizations, time vectors and response factors for which the linear system is solvable',
 'Tests compare stored g-functions of a few fields; heat balance at each time step of each solution is never looked at.',
 ['solvers/_base_solver.py', 'gfunction.py'], [('solve, load_history_reconstruction', 'solvers/_base_solver.py'), ('_heat_extraction_rates', 'gfunction.py')], [('Q_b, T_b', 'profiles', 'solver object')], ['profiles stored by the solver'])

prop('S02', 'g-function solutions satisfy their boundary condition and the superposition law',
 'At every time step the computed segment wall temperatures equal the temporal and spatial superposition of the segment response factors with the reconstructed loads, uniform over all segments when uniform wall temperature is prescribed, length-weighted averaged to the g-function when uniform heat extraction is prescribed, and consistent with the network heat transfer when a network is prescribed. '
 'Below the linearization threshold the g-function is proportional to time, and it is continuous with the values above it, for each mass flow rate.',
 ['inputs', 'configurations'], 'all response factors, segment lengths, time vectors, flow rates, and boundary conditions for which the linear system is solvable',
 'Tests compare stored g-function values; the defining equations are never evaluated on the computed solution.',
 ['solvers/_base_solver.py'], [('solve, temporal_superposition', 'solvers/_base_solver.py')], [('Q_b, T_b', 'profiles', 'solver object')], ['g-function and profiles'])

prop('S03', 'Grouping similar boreholes and segments does not change response factors',
 'The segment-to-segment response factors evaluated through similarities equal those evaluated pair by pair for all vertical and inclined bore fields (to the distance tolerance), whatever the order of the boreholes, depths, lengths, tilts, orientations and discretizations. '
 'In both, the response factor matrix satisfies the reciprocity relation weighted by segment lengths.',
 ['inputs', 'configurations'], 'all bore fields, discretizations and tolerances',
 'Tests compare a few regular fields where all boreholes share dimensions; grouping errors show up only for particular mixes of depths, tilts and orders.',
 ['solvers/similarities.py', 'solvers/detailed.py'], [('_compare_*, _find_axial_borehole_pairs, _find_distances, _map_*', 'solvers/similarities.py'), ('thermal_response_factors', 'solvers/detailed.py, solvers/similarities.py')], (), ['thermal_response_factors of the solvers'])

prop('S04', 'Equivalent boreholes account for every borehole exactly once',
 'The equivalent-borehole method assigns every borehole to exactly one group of boreholes of equal dimensions, each equivalent borehole carries the number and mean geometry of its members, and total lengths are preserved. '
 'Its response factors count every pair of boreholes once, satisfy reciprocity weighted by total group lengths, and with one borehole per group coincide with those of the pairwise evaluation (to the distance tolerance).',
 ['inputs', 'configurations'], 'all vertical bore fields, discretizations, cluster counts and tolerances',
 'Tests compare a few regular fields with stored values; the partition and pair-counting guarantees quantify over all fields.',
 ['solvers/equivalent.py', 'boreholes.py'], [('find_groups, _find_unique_boreholes, _find_axial_borehole_pairs, thermal_response_factors', 'solvers/equivalent.py'), ('_EquivalentBorehole', 'boreholes.py')], (), ['groups and thermal_response_factors of the solver'])

prop('F01', 'Fluid film and pipe wall resistances are physical and continuous',
 'Friction factors satisfy the laminar law below the transition and the implicit rough-pipe law (to the requested tolerance) above it; convective coefficients are positive, depend only on the magnitude of the flow, take the laminar values up to the lower critical Reynolds number, the turbulent correlation from the upper one, and vary without jumps between both. '
 'Pipe wall conduction resistances are positive, add up over nested layers and scale inversely with conductivity; fluid properties supplied by the fluid object are mutually consistent.',
 ['inputs'], 'all flow rates, radii, fluid properties and roughnesses',
 'Tests pin one value per flow regime; continuity and limits quantify over all Reynolds numbers.',
 ['pipes.py', 'media.py'], [('fluid_friction_factor_circular_pipe, convective_heat_transfer_coefficient_*, _Nusselt_number_turbulent_flow, conduction_thermal_resistance_circular_pipe', 'pipes.py'), ('Fluid', 'media.py')], (), ['return values'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
