"""the property list; writes /verif/properties.jsonl"""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': state or [], 'observe_at': observe or [], 'hook_needed': None}})


prop('C01', '2D shallow water: volume changes only through open boundaries and sources',
     '''For every state, mesh geometry and option set, the discrete 2D continuity equation creates no water: the fluxes
     that the two cells sharing an interior facet see cancel, a land boundary carries no flux, and inside a cell only the
     volume source acts. With wetting and drying the stored quantity whose rate of change is solved for is the modified
     total water column.''',
     ['inputs', 'configurations'], 'all elevation, velocity, bathymetry values and gradients on both sides of a facet, all'
     ' facet normals; linear/nonlinear, wetting-drying, element families, full/free-surface/mode-split equations',
     'tests run a handful of smooth states on fixed meshes and check a global volume to a tolerance; no stable test runs'
     ' the 2D equations at all',
     ['thetis/shallowwater_eq.py', 'thetis/utility.py'],
     [('HUDivTerm', 'shallowwater_eq.HUDivTerm.residual'), ('source', 'shallowwater_eq.ContinuitySourceTerm.residual'),
      ('storage', 'shallowwater_eq.BathymetryDisplacementMassTerm.residual')])

prop('C02', '2D shallow water: every term discretises its documented equation',
     '''For a continuous state, the weak form of each term of the 2D shallow water equations (divergence, external
     pressure gradient, momentum advection, viscosity, Coriolis, wind stress, atmospheric pressure, friction, sources) equals
     the documented strong term tested cell by cell, with no left-over contribution on interior facets or on boundaries
     whose prescribed data agree with the state. Each term enters with the documented sign and scaling, in every option
     combination, and the contribution of an interior facet does not depend on which of its two cells is numbered first.''',
     ['inputs', 'configurations'], 'all smooth states (values, gradients, second derivatives), geometries, coefficients and'
     ' options (linear/nonlinear, wetting-drying, grad-div and grad-depth viscosity, Lax-Friedrichs)',
     'tests sample one analytic solution per configuration and look at convergence rates; a consistency error in a term'
     ' a test does not switch on, or one that is small for its data, is invisible',
     ['thetis/shallowwater_eq.py'],
     [('terms', 'shallowwater_eq.*Term.residual'), ('assembly', 'shallowwater_eq.BaseShallowWaterEquation.add_*_terms')])

prop('C03', '2D shallow water: dissipative terms never add kinetic energy',
     '''For every state, the Coriolis term does no work on the flow, bottom, linear, boundary and turbine drag and the
     Lax-Friedrichs and interior-penalty terms only remove kinetic energy (viscous jump penalties are non-negative and the
     viscous operator is symmetric), and the interior-facet and land-boundary fluxes of the linear pressure/divergence pair
     never increase the wave energy.''',
     ['inputs', 'configurations'], 'all states on both sides of a facet, all normals, all non-negative coefficients',
     'a test sees the energy of a few trajectories; a sign that is wrong only for some orientation or jump is not exercised',
     ['thetis/shallowwater_eq.py'],
     [('drag', 'shallowwater_eq.QuadraticDragTerm/LinearDragTerm/BoundaryDragTerm/TurbineDragTerm'),
      ('stabilisation', 'shallowwater_eq.HorizontalAdvectionTerm'), ('viscosity', 'shallowwater_eq.HorizontalViscosityTerm'),
      ('Riemann fluxes', 'shallowwater_eq.ExternalPressureGradientTerm/HUDivTerm')])

prop('C04', '2D shallow water: boundary data are imposed as documented',
     '''For each supported combination of boundary data (elev, uv, un, flux and pairs with elev) the external elevation and
     velocity are the prescribed values where given and the interior values otherwise; un and flux are positive out of the
     domain and a volume flux is distributed uniformly over the wet boundary section; unknown tags are rejected and
     boundaries without data, or with drag only, are impermeable.''',
     ['inputs', 'configurations'], 'all boundary values, interior states, normals, and all tag combinations',
     'tests use a few boundary types with constant data, never all pairs with arbitrary interior states',
     ['thetis/shallowwater_eq.py'],
     [('mapping', 'shallowwater_eq.ShallowWaterTerm.get_bnd_functions'),
      ('dynamic boundary test', 'shallowwater_eq.ShallowWaterTerm.impose_dynamic_bnd')])

prop('C05', 'Wetting and drying keeps the water depth positive',
     '''With wetting and drying the total depth is strictly positive for every elevation and bathymetry, is never smaller
     than the plain depth, increases with elevation, and tends to the plain depth where the water is deep compared with
     alpha; without it the depth is bathymetry (linear) or bathymetry plus elevation (nonlinear). An automatic alpha is kept
     between the configured minimum and maximum.''',
     ['inputs', 'configurations'], 'all real elevations, bathymetries and alpha > 0',
     'tests only visit the depths their runs produce', ['thetis/utility.py', 'thetis/solver2d.py'],
     [('depth', 'utility.DepthExpression'), ('alpha', 'solver2d.FlowSolver2d.set_wetting_and_drying_alpha')])

TESTS_FEW = 'tests sample a few runs with fixed data; the quantifier is over all states and geometries'

prop('C06', '2D tracers: transport conserves tracer mass',
     '''For every state and mesh geometry the conservative 2D tracer and sediment transport terms exchange tracer between the
     two cells of an interior facet without loss, including stabilisation and diffusion, and inside a cell only sources act;
     the source of the conservative form is depth times the source of the non-conservative form. Advective flux through a
     boundary without data is the interior flux, so an impermeable boundary loses nothing.''',
     ['inputs', 'configurations'], 'all tracer, velocity, elevation values on both sides of a facet, all normals, options',
     TESTS_FEW + '; no stable test advances a 2D tracer', ['thetis/tracer_eq_2d.py', 'thetis/sediment_eq_2d.py'],
     [('advection', 'tracer_eq_2d.ConservativeHorizontalAdvectionTerm'), ('diffusion', 'tracer_eq_2d.HorizontalDiffusionTerm'),
      ('source', 'tracer_eq_2d.ConservativeSourceTerm'), ('sediment', 'sediment_eq_2d.*')])
prop('C07', '2D tracers: consistent, upwinded and constant-preserving',
     '''For continuous fields each 2D tracer term equals its documented strong form (SUPG stabilisation aside); a spatially
     constant tracer has zero non-conservative tendency in any flow field, on interior facets (for continuous tracer elements:
     where the normal velocity is continuous) and on boundaries without prescribed value or velocity; the
     advected facet value is the one from the upstream side (the prescribed value only at inflow boundaries), jump
     terms of advection, Lax-Friedrichs and diffusion are dissipative, and facet contributions do not depend on which of the
     two cells is numbered first.''',
     ['inputs', 'configurations'], 'all states, normals, boundary data combinations', TESTS_FEW,
     ['thetis/tracer_eq_2d.py'], [('terms', 'tracer_eq_2d.*Term.residual'),
                                  ('boundary values', 'tracer_eq_2d.TracerTerm.get_bnd_functions')])
prop('C08', 'Sediment lost by the water is gained by the bed',
     '''For every state the erosion and deposition applied to the suspended sediment (conservative or not) and the source
     of the Exner equation describe the same exchange: bed change times (1 - porosity) / morphological factor equals minus
     the change of suspended mass; erosion and deposition coefficients are non-negative; bedload (on a continuous
     bathymetry, for nonzero flow speed) follows the published transport, slope and secondary current formulas and is conserved
     across the domain interior and closed boundaries; the slide term lowers slopes above the critical angle
     and leaves others alone.''',
     ['inputs', 'configurations'], 'all depths, velocities, concentrations, porosities and morphological factors',
     TESTS_FEW + '; sediment tests are not among the stable tests',
     ['thetis/sediment_eq_2d.py', 'thetis/exner_eq.py', 'thetis/sediment_model.py'],
     [('erosion/deposition', 'sediment_eq_2d.SedimentErosionTerm/SedimentDepositionTerm'),
      ('bed', 'exner_eq.ExnerSourceTerm/ExnerBedloadTerm'), ('rates', 'sediment_model.SedimentModel')])
prop('C09', '3D tracer equation: conservation, constancy and upwinding',
     '''For every state the 3D tracer equation moves tracer between cells across vertical and horizontal facets without
     loss, keeps a constant tracer constant in any velocity field that satisfies discrete continuity (including a moving
     mesh), takes upstream facet values, and each term equals its documented strong form for continuous fields (horizontal
     diffusion across a sloping surface or bottom excepted, which is documented as open); prescribed
     boundary values, velocities and fluxes enter only where given.''',
     ['inputs', 'configurations'], 'all states on both sides of vertical/horizontal facets, mesh velocities, normals',
     TESTS_FEW, ['thetis/tracer_eq.py'], [('terms', 'tracer_eq.*Term.residual')])
prop('C10', '3D momentum equation: consistency, symmetry and boundary conditions',
     '''For continuous fields each term of the 3D momentum equation equals its documented strong form with no left-over
     facet contribution; advection and viscosity conserve momentum across interior facets, Coriolis does no work, viscosity
     and bottom friction dissipate, wind stress enters only at the surface and bottom friction only at the bed (with the
     logarithmic-layer drag coefficient for the given roughness), and a closed lateral boundary acts on the normal
     velocity only.''',
     ['inputs', 'configurations'], 'all states on both sides of vertical/horizontal facets, normals, options', TESTS_FEW,
     ['thetis/momentum_eq.py'], [('terms', 'momentum_eq.*Term.residual')])
prop('C11', '3D diagnostics: vertical velocity, vertical integrals and baroclinic head',
     '''The diagnosed vertical velocity satisfies the discrete continuity equation with impermeable bed and with the surface
     moving with the mesh (no interior mass source); the vertical integral operator inverts the vertical derivative
     from the bottom or from the surface, exactly for piecewise linear data, starts at the given boundary value, and can give the
     average; the baroclinic head is the integral of the density anomaly from the surface divided by the reference density
     and the internal pressure gradient is its horizontal gradient times gravity.''',
     ['inputs', 'configurations'], 'all velocity/density states and facets', TESTS_FEW,
     ['thetis/utility3d.py', 'thetis/momentum_eq.py'],
     [('w', 'utility3d.VerticalVelocitySolver'), ('integral', 'utility3d.VerticalIntegrator'),
      ('head', 'utility3d.compute_baroclinic_head'), ('ipg', 'momentum_eq.InternalPressureGradientCalculator')])
prop('C12', 'Moving mesh follows the free surface',
     '''With the moving mesh and positive water depth the vertical coordinate is the reference column stretched onto the
     water column: bottom nodes stay at the bed, surface nodes at the (continuous) free surface, layers keep their order and
     their share, layer thickness fields are renewed with it; the mesh velocity is zero at the bed, linear in
     height, and is the rate of change of the mesh coordinates implied by the elevations before and after each stage of the
     coupled time integrators (second stage of the two-stage scheme: of the averaged update), which evaluate each
     equation on the mesh of its stage.''',
     ['inputs', 'histories'], 'all elevations, depths, column shapes with up to a stated number of nodes', TESTS_FEW,
     ['thetis/utility3d.py', 'thetis/coupled_timeintegrator.py'], [('mesh', 'utility3d.ALEMeshUpdater')])
prop('C13', 'Turbulence closure state stays physical and self-consistent',
     '''After each update of the generic length scale model from any (also unphysical) turbulent kinetic energy and psi, TKE,
     epsilon, eddy viscosity and diffusivity are at or above their configured minima, the length scale is above its minimum and
     obeys the Galperin limit where it applies (the limit wins over the minimum), viscosity is sqrt(k) l S / cmu0^3 with the
     stability function of the limited numbers, and psi, epsilon and length scale are mutually consistent with the
     model exponents.''',
     ['inputs', 'histories', 'configurations'], 'all k, psi, N2, M2 and all closures and parameters', TESTS_FEW,
     ['thetis/turbulence.py'], [('update', 'turbulence.GenericLengthScaleModel.postprocess')])
prop('C14', 'Stability functions satisfy their steady-state and neutral relations',
     '''For every closure the quasi-equilibrium stability functions are the documented rational functions (original and
     Umlauf-Burchard form), the limits keep
     the denominators positive on the clipped range, the diagnosed steady-state and neutral constants (c3, kappa,
     sigma_psi, cmu0, Richardson number) satisfy the relations that define them.''',
     ['inputs', 'configurations'], 'all non-dimensional shear and buoyancy numbers in the clipped range, all closures',
     'tests check a few tabulated constants', ['thetis/stability_functions.py', 'thetis/turbulence.py'],
     [('functions', 'stability_functions.StabilityFunctionBase')])
prop('C15', 'Turbulence sources and sinks have the documented sign and form',
     '''In the TKE and psi equations production by shear enters as non-negative source, buoyancy as source when unstable and
     as linear sink when stable (with the c3 constant of that regime), dissipation as linear sink, so TKE and psi stay
     positive; the psi flux at bed and surface is that of the logarithmic profile half a cell plus the roughness length off the wall;
     diffusivity is viscosity over the Schmidt number; the Pacanowski-Philander viscosity and diffusivity follow their formulas and
     stay within their bounds.''',
     ['inputs', 'configurations'], 'all k, psi, epsilon, N2, M2, viscosity values and parameters', TESTS_FEW,
     ['thetis/turbulence.py'], [('sources', 'turbulence.TKESourceTerm/PsiSourceTerm'),
                                ('PP', 'turbulence.PacanowskiPhilanderModel')])
prop('C16', 'Equation of state is evaluated as documented',
     '''Linear and full equations of state give density as the documented function of salinity, temperature and pressure
     minus the reference density, negative salinity being treated as zero by the full equation; the density solvers evaluate it
     at surface pressure in every node; density is the same whether computed pointwise or through a projected field.''',
     ['inputs'], 'all salinities, temperatures, depths in range', 'tests check one value',
     ['thetis/utility3d.py', 'thetis/utility.py'], [('eos', 'utility3d.JackettEquationOfState/LinearEquationOfState'),
                                                   ('solver', 'utility3d.DensitySolver')])
prop('C17', 'Runge-Kutta schemes have their documented order and structure',
     '''Every shipped scheme has stage times equal to the row sums of its tableau, satisfies the algebraic order conditions of
     the order it documents, is explicit or diagonally implicit as named, has the documented A- or L-stability, and its
     Shu-Osher form (where used) is the same
     method as its Butcher tableau; implicit-explicit pairs share stage times where documented and the pair has
     its documented order; with its CFL coefficient an explicit scheme stays stable wherever forward Euler does.''',
     ['configurations'], 'all schemes, all linear test problems', 'tests fit a convergence slope on one problem',
     ['thetis/rungekutta.py', 'thetis/implicitexplicit.py'], [('tableaux', 'rungekutta.*Abstract')])
prop('C18', 'One step of each time integrator is its documented update',
     '''For every initial value, time step, right hand side and forcing, one step of each time integrator (explicit, implicit,
     IMEX, leap-frog Adams-Moulton, two-stage ALE, pressure-projection Picard) advances the solution exactly as its scheme
     prescribes, with each term taken once, explicit and implicit terms at the documented levels, lagged coefficients of the
     semi-implicit variants at the old level, and the old-time state updated.''',
     ['inputs', 'histories', 'configurations'], 'all initial values, time steps, coefficients; up to three consecutive steps',
     'tests measure the slope of an error on one scalar problem', ['thetis/timeintegrator.py', 'thetis/rungekutta.py',
                                                                  'thetis/implicitexplicit.py'],
     [('advance', '*.advance/solve_stage/get_final_solution'), ('term selection', 'equation.Equation.select_terms')])
prop('C19', 'Forcings are evaluated at the stage time',
     '''During a step from t every integrator updates time-dependent forcings at exactly the times at which its scheme
     evaluates the right hand side (t + c_i dt for Runge-Kutta stages, t + dt for implicit updates, forward Euler and
     leap-frog), before that evaluation, and after set_dt the new time step is used everywhere.''',
     ['inputs', 'histories'], 'all t and dt, all integrators, forcing varying arbitrarily in time', TESTS_FEW,
     ['thetis/timeintegrator.py', 'thetis/rungekutta.py', 'thetis/coupled_timeintegrator_2d.py'],
     [('forcing callbacks', '*.advance(t, update_forcings)')])
prop('C20', 'Coupled 2D stepping: each equation advanced once, in order, with current fields',
     '''In every coupled 2D time step the shallow water system (with or without the non-hydrostatic correction), the tracers,
     the sediment and the bed are each advanced
     exactly once from the same time (Picard: the stated number of iterations, lagged and updated fields as documented), each
     equation only if enabled and with its own field, coefficients, options and boundary data, later equations see the updated
     earlier fields, and limiters run right after their tracer.''',
     ['configurations', 'histories'], 'all subsets of enabled equations and options, all times', TESTS_FEW,
     ['thetis/coupled_timeintegrator_2d.py'], [('advance', 'coupled_timeintegrator_2d.*.advance')])
prop('C21', 'Simulation time, iteration and export bookkeeping',
     '''Starting at any time, the k-th step starts at initial time + k dt and the run ends at the first step that reaches the
     end time (1e-5 s tolerance); with an export interval of at least one step, exports occur once per interval at the first step
     that reaches each multiple, numbered consecutively, with the callbacks of each kind evaluated at the documented moments; after a
     restart the numbering, iteration count and next export time continue where the stored state left off. The same holds
     for the 2D and the 3D solver.''',
     ['inputs', 'histories', 'configurations'], 'all time steps, export intervals, start and end times within stated counts',
     TESTS_FEW, ['thetis/solver2d.py'], [('loop', 'solver2d.FlowSolver2d.create_iterator/iterate'),
                                         ('restart', 'solver2d.FlowSolver2d.load_state')])
prop('C22', 'Automatic time step respects the CFL limits',
     '''The automatically chosen 2D time step is never larger than the smallest nodal value of element size over
     (gravity wave speed + velocity scale) times the CFL coefficients; the 3D step is never larger than the CFL coefficient times the
     smallest of the horizontal and vertical advection and diffusion limits; the minimum is over all processes; the ratio of steps
     is an integer, the export interval is a multiple of an automatic step, an automatic step never exceeds its limit after rounding,
     a user step is used as given when automatic steps are off and refused when it is missing or not positive.''',
     ['inputs', 'configurations'], 'all element CFL limits, scales, ratios', TESTS_FEW,
     ['thetis/solver2d.py', 'thetis/solver.py'], [('dt', 'solver2d.FlowSolver2d.set_time_step'),
                                                  ('3D dt', 'solver.FlowSolver.set_time_step')])
prop('C23', 'Time interpolation returns the value at the requested time',
     '''Whenever the requested time lies within the available data, the record search returns two consecutive records that
     bracket it (records at least one second apart, one microsecond tolerance) and linear interpolation is exact at the records
     and linear between them, whatever was requested before; requests outside the data raise an
     error unless gaps are explicitly allowed.''',
     ['inputs', 'histories'], 'all record times (up to a stated number), all requests, all sequences of requests',
     'tests use regular time stamps', ['thetis/interpolation.py'],
     [('search', 'interpolation.NetCDFTimeSearch/DailyFileTimeSearch/NetCDFTimeParser'),
      ('interpolation', 'interpolation.LinearTimeInterpolator')])
prop('C24', 'Spatial interpolation weights reproduce linear fields and fill gaps locally',
     '''Grid interpolation is exact for linear source data inside the grid, is a convex combination of the vertices of the
     containing source triangle, raises, masks or fills points outside as configured (filling with the nearest source point), and the
     node subset read from a file covers the target points, with file values (masked entries included) mapped to the right target.''',
     ['inputs', 'configurations'], 'all source values and target points within stated grid sizes', TESTS_FEW,
     ['thetis/interpolation.py'], [('weights', 'interpolation.GridInterpolator'), ('subset', 'interpolation.SpatialInterpolatorNCBase')])
prop('C25', 'Vector rotations preserve length and time conversions are invertible',
     '''Rotating a vector between coordinate systems preserves its length, follows the local direction of the axes, and
     is undone by the inverse rotation at every
     location, and conversion of a date to epoch seconds and back returns the same instant for every time zone.''',
     ['inputs'], 'all vectors, rotation angles, dates and UTC offsets', TESTS_FEW, ['thetis/coordsys.py', 'thetis/timezone.py',
                                                                                  'thetis/interpolation.py'],
     [('rotation', 'coordsys.VectorCoordSysRotation'), ('time', 'timezone.FixedTimeZone')])
prop('C26', 'Surface forcing conversions follow their formulas',
     '''Wind stress is air density times the drag coefficient of the selected published bulk formula times wind speed times
     wind vector, rotated to the model coordinates; atmospheric pressure is delivered in pascal; ocean model fields
     are stored at the target nodes of the requested time; vertical
     ROMS coordinates put the surface level at the free surface, the bottom level at the bed, monotone in between for
     both transforms; tidal elevation and velocity fields are set at boundary nodes that have data and are the sum
     over constituents given by the tidal library.''',
     ['inputs', 'configurations'], 'all wind vectors, all level parameters', TESTS_FEW, ['thetis/forcing.py'],
     [('stress', 'forcing.compute_wind_stress'), ('levels', 'forcing.compute_roms_vertical_grid')])
prop('C27', 'Turbine thrust, power and placement constraints are consistent',
     '''Thrust and power coefficients interpolate their table linearly, are zero outside the operating range, thrust from a
     power curve and power agree with the actuator disc relations; turbine density, drag and power of a farm are those of its
     turbines; running means use the time step of the run; distance and boundary constraints equal their
     formulas and their Jacobians are the derivatives.''',
     ['inputs', 'configurations'], 'all speeds, depths, layouts up to a stated number of turbines', TESTS_FEW,
     ['thetis/turbines.py'], [('coefficients', 'turbines.*'), ('constraints', 'turbines.MinimumDistanceConstraints')])
prop('C28', 'Diagnostic output records each evaluation exactly once',
     '''Every callback evaluation inside its time window is appended exactly once and in order to its log, export and HDF5
     output with the time and values computed; evaluations outside the window leave no trace, overwriting after a
     restart replaces rather than duplicates records, and exports of fields are numbered consecutively, each with its
     pre-processing applied to that field.''',
     ['inputs', 'histories', 'configurations'], 'all evaluation times and windows, sequences up to a stated length', TESTS_FEW,
     ['thetis/callback.py'], [('callback', 'callback.DiagnosticCallback/DiagnosticHDF5/CallbackManager')])
prop('C29', 'Conservation and extremum diagnostics report what they measure',
     '''Relative mass/volume change is measured against the first (nonzero) value, over- and undershoot are relative to the
     initial extrema and zero when within them, detector and time-series values are the field at the requested location, and
     accumulated time integrals add the integrand of every evaluation with the weight and time step of the run.''',
     ['inputs', 'histories'], 'all sequences of values up to a stated length', TESTS_FEW, ['thetis/callback.py'],
     [('callbacks', 'callback.ScalarConservationCallback/TracerOvershootCallBack/AccumulatorCallback/...')])
prop('C30', 'Slope limiter bounds and conserves the field',
     '''The vertex-based limiter leaves the mean of each cell unchanged, keeps every vertex value between the minimum and maximum
     of the means of the surrounding cells (including the means of the vertices of boundary facets, top and bottom), leaves fields
     unchanged that already satisfy these bounds, never reverses or steepens a slope, and treats each component of a vector
     on its own.''',
     ['inputs'], 'all nodal values on stated small patches', TESTS_FEW, ['thetis/limiter.py'],
     [('limiter', 'limiter.VertexBasedP1DGLimiter')])
prop('C31', 'Option containers validate and freeze',
     '''Assigning an option accepts exactly the values its declared domain allows and otherwise leaves the old value; unknown
     option names are rejected once a container is frozen (also after an error inside an unfreezing method), containers do not share
     nested option sets, updating from another container copies every option, and a paired option set matches its selector whenever
     the selector is assigned.''',
     ['inputs', 'histories', 'configurations'], 'all numeric values, all names, sequences of assignments', TESTS_FEW,
     ['thetis/configuration.py', 'thetis/utility.py', 'thetis/options.py'],
     [('validators', 'configuration.*'), ('freeze', 'utility.FrozenClass')])
prop('C32', 'Inversion misfit is the weighted sum of squares it documents',
     '''The cost function is the sum over stations and evaluated times of squared model-observation differences (observations
     linear in time, each station only inside its period) times the scaling and station weight (the inverse variance if asked for),
     adds each time level once and the regularisation once, and is zero only for a perfect fit; gradient, Hessian and prior
     regularisation terms have their documented form, are non-negative and vanish for constant (linear, prior) controls; stored
     progress, series and exports belong to their iteration, station and control.''',
     ['inputs', 'histories'], 'all model and observation values, weights, up to stated numbers of times and stations', TESTS_FEW,
     ['thetis/inversion_tools.py'], [('misfit', 'inversion_tools.StationObservationManager'),
                                     ('regularisation', 'inversion_tools.*RegularizationCalculator')])
prop('C33', 'Mode splitting keeps the 2D and 3D solution consistent',
     '''In each coupled 2D-3D integrator every equation is advanced once per stage from the elevation, depth-mean velocity, vertical
velocity, pressure gradient and mesh of its own time level; after each step the 3D velocity has the depth mean of the 2D mode, all
diagnostics belong to the new state, the depth mean removed from the explicit 3D update is what forces the 2D mode, limiters and
turbulence follow the update they belong to, vertical viscosity acts on the full velocity, and each integrator gets the
coefficients, options and boundary data of its own equation; unsupported 2D/3D step ratios are refused.''',
     ['inputs', 'histories'], 'all states returned by the equations, over two consecutive steps, every set of options', TESTS_FEW,
     ['thetis/coupled_timeintegrator.py'], [('two-stage', 'coupled_timeintegrator.CoupledTwoStageRK.advance'),
                                            ('leapfrog', 'coupled_timeintegrator.CoupledLeapFrogAM3.advance'),
                                            ('wiring', 'coupled_timeintegrator.CoupledTimeIntegrator')])
prop('C34', '2D and 3D fields correspond along the water columns',
     '''Extruding a 2D mesh puts the levels at z = -h sigma^s from the bed (bottom) to zero (top), horizontal coordinates unchanged and
depth limits only lifting nodes. Extending a 2D field gives every node of a column the value below it; extraction takes exactly
the top, bottom or mean of the surface or bottom layer and undoes the extension; components are kept. Layer heights are the
non-negative edge heights; the HCC metric is the largest height difference of a facet over the layer height; the Smagorinsky
viscosity is (C dx)^2 |S| of the horizontal velocity gradient, also on sloped layers, within its bounds.''',
     ['inputs'], 'all nodal values and depths on extruded meshes of up to 3 layers; all facet slopes', TESTS_FEW,
     ['thetis/utility3d.py', 'thetis/utility.py'], [('extend', 'utility3d.ExpandFunctionTo3d'),
                                                    ('extract', 'utility3d.SubFunctionExtractor'),
                                                    ('extrude', 'utility.extrude_mesh_sigma'),
                                                    ('smagorinsky', 'utility3d.SmagorinskyViscosity')])
prop('C35', 'Recovered diagnostics and mesh measures are what they are named',
     '''The recovered vorticity is the projection of u_y - v_x (the documented sign), gradient and Hessian are first and second
derivatives with every component in its place and consistent at facets, kinetic energy is half density times squared speed of the
current velocity however it is evaluated; dual weighted residuals are the residual of the right equation tested with the dual
solution, and cell indicators add up to the functional with facets credited to their own cells; facet lengths, smallest angles, cell
widths, singular values, element sizes, boundary lengths and Coriolis parameters are those of the mesh and latitude.''',
     ['inputs'], 'all field values and derivatives, facet normals, edge lengths, vertex positions and latitudes', TESTS_FEW,
     ['thetis/diagnostics.py', 'thetis/utility.py'], [('vorticity', 'diagnostics.VorticityCalculator2D'),
                                                      ('hessian', 'diagnostics.HessianRecoverer2D'),
                                                      ('kinetic energy', 'diagnostics.KineticEnergyCalculator'),
                                                      ('indicators', 'utility.form2indicator')])
prop('C36', 'Non-hydrostatic pressure correction solves the documented equations',
     '''The depth-integrated Poisson solver finds the non-hydrostatic pressure of the documented equation (divergence of the corrected
flux closes the depth-integrated continuity, with the depth definition in use), with no flux through closed walls and the chosen open
boundary behaviour; the horizontal velocity is then reduced by dt/(2 rho) times the documented depth-integrated pressure gradient and the
vertical velocity raised by dt/rho times pressure over depth, each once per solve and with the pressure just found.''',
     ['inputs'], 'all field values and derivatives at a point, facet normals, depths, time steps', TESTS_FEW,
     ['thetis/utility.py'], [('pressure', 'utility.DepthIntegratedPoissonSolver')])
prop('C37', 'Optimisation callbacks record and export the values they are named after',
     '''Used at any stage of an optimisation, a callback records and logs each evaluation once: the functional, the current control
values or the derivatives, in the order of the controls; stages or sizes it cannot serve are refused and leave no record. Lists call
every callback once in order with the same arguments, and derivatives or controls are passed on unchanged. Fields are exported under
documented names with the values of the call (checkpointed values, controls or derivatives, single or listed, scalar or vector).''',
     ['inputs', 'histories'], 'all values, several evaluations, all combinations of names and stages', TESTS_FEW,
     ['thetis/optimisation.py', 'thetis/exporter.py'], [('recording', 'optimisation.DiagnosticOptimisationCallback'),
                                                         ('exports', 'optimisation.UserExportManager'),
                                                         ('deferred', 'optimisation.DeferredExportManager')])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')

with open(json_path, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
