# properties of the simulated physics (part of tools/props.py)

prop('C11', 'Grid orientation is restored after every step and immaterial to results',
     'After every time step or fast-forward, with or without wind, the coordinates, the cell sizes and all wind, shear and flux vectors are in the orientation of the input grid. '
     'Turning grid and wind together turns all vectors and leaves every other result as it is (without shear perturbation and avalanching).',
     ['histories', 'configurations'],
     'all grid angles, wind series, sequences of steps and fast-forwards, solvers and processes of two-dimensional models',
     'Tests use unrotated grids and never compare a state after a step with the input.',
     ['aeolis/model.py', 'aeolis/wind.py', 'aeolis/gridparams.py'],
     [('rotating to and from the computational orientation', 'AeoLiS.grid_rotate'), ('early return when fast-forwarding', 'AeoLiS.update')],
     [('coordinates and vector pairs', 'in input orientation between steps', 's[x,y,uws,uwn,ustars,ustarn,taus,taun,qs,qn,udir]')],
     ['state after every step'],
     'Vectors are recomputed from forcing and angle; half of the cases run a turned twin in lockstep.')

prop('C12', 'Forcing conditions are those of the input series at the model time',
     'In every step wind speed and direction, water level, wave height and period, run-up and the meteorological conditions are the input time series interpolated to the time of the step '
     '(directions along the shortest arc by their components; a series starts again beyond its end), subject to masks and to the limit of wave height by depth. '
     'The history by which the model reached that time is immaterial.',
     ['histories', 'configurations'],
     'all series, model times, step sequences, fast-forwards and jumps of the clock',
     'Tests run single cases from start to end and compare no forcing.',
     ['aeolis/wind.py', 'aeolis/hydro.py', 'aeolis/utils.py'],
     [('wind', 'wind.interpolate'), ('water level, waves, run-up, meteo', 'hydro.interpolate'), ('repeating series', 'utils.interp_circular')],
     [], ['state after every step'],
     'An independent interpolation of the series is the oracle at every step.')

prop('C13', 'The bed keeps its sediment budget in every step',
     'In a step every fraction leaves or enters a cell of the bed in exactly the amount reported as pickup, no layer ever changes its total mass, and the bed level changes by the '
     'volume of the sediment exchanged. '
     'An eroding cell is replenished layer by layer from below, a depositing cell passes on sediment downwards; nothing appears or vanishes. '
     'Mixing by waves only redistributes sediment between the layers within its depth of disturbance.',
     ['histories', 'inputs'],
     'all bed compositions, layers, fractions, exchanges of any size and sign per fraction and cell, and histories of them',
     'Tests never compare the bed composition; amounts of more than a layer and mixed exchanges do not occur in the sampled cases.',
     ['aeolis/bed.py', 'aeolis/model.py'],
     [('exchange with the bed', 'bed.update'), ('layers', 'bed.arrange_layers'), ('limiting negative mass', 'bed.prevent_negative_mass'), ('mixing', 'bed.mixtoplayer')],
     [('mass', 'sediment per cell, layer and fraction', 's[mass]'), ('bed level', '', 's[zb]')],
     ['mass, bed level and pickup after every step'],
     'A ledger per cell, layer and fraction; the simulator injects exchanges of any size in place of the transport step.')

prop('C14', 'No more sediment is picked up than the bed has available',
     'In every step no more of a fraction is picked up from a cell than its top layer holds, and neither the bed nor the air ever holds a negative or non-finite amount. '
     'The weights by which fractions are mobilised are non-negative and add up to at most one; they add up to exactly one, and without interaction with the air equal the shares of the top layer, '
     'wherever the supply is not limiting.',
     ['histories', 'inputs'],
     'all storms, time steps, layers, compositions including exhausted fractions, and concentrations already in the air',
     'Exhausted fractions, starving cells and plumes do not occur in the sampled cases.',
     ['aeolis/model.py', 'aeolis/transport.py', 'aeolis/bed.py'],
     [('iteration over supply limitation', 'AeoLiS.solve, solve_steadystate, solve_pieter, solve_steadystatepieter'), ('weights', 'transport.compute_weights, renormalize_weights')],
     [], ['pickup, mass, concentration and weights after every step'],
     'Fractions are starved and plumes injected between steps.')

prop('C16', 'Avalanching moves sediment downslope only, until slopes are stable',
     'Avalanching leaves the bed alone while no slope exceeds the static angle of repose. Otherwise it moves sediment only downhill: it neither raises the highest nor lowers '
     'the lowest point, creates no sediment and loses none except over the edges of the domain, does not dig into the non-erodible layer, and leaves no slope steeper than the dynamic angle of repose '
     '(without a non-erodible layer, given enough iterations).',
     ['inputs', 'histories'],
     'all bathymetries (peaks, pits, cliffs, ridges, noise of any height), non-erodible layers, angles of repose and histories of them',
     'Tests run a single smooth dune without comparing the bed.',
     ['aeolis/avalanching.py'],
     [('trigger and relaxation', 'avalanching.avalanche'), ('slopes', 'avalanching.calc_gradients')],
     [], ['bed level after every step compared with bed level and pickup before'],
     'The bed is steepened between steps by the simulator.')

prop('C22', 'Transport conserves sediment between bed, air and neighbouring cells',
     'With the implicit and steady state solvers, for each fraction and inner cell the sediment picked up in a step equals the increase of the sediment in the air plus what is carried to minus what is carried from the '
     'neighbouring cells, also across a circular lateral boundary. The flux is the sediment in the air times its velocity. Without wind the sediment in the air does not change.',
     ['histories', 'inputs'],
     'all wind directions and speeds, grids, time steps, fractions, bed supplies, boundary conditions and concentrations already in the air',
     'Tests compare no concentrations; obliquely incident and reversing winds, thresholds from file and non-erodible layers are not sampled.',
     ['aeolis/model.py', 'aeolis/transport.py', 'aeolis/threshold.py'],
     [('advection', 'AeoLiS.solve, solve_steadystate, solve_pieter, solve_steadystatepieter'), ('saturated transport', 'transport.equilibrium')],
     [('concentration', 'sediment in the air', 's[Ct]')],
     ['concentration, pickup, velocity and flux after every step'],
     'Finite-volume balance recomputed per cell; plumes injected between steps.')

prop('C15', 'Sediment moves only where and when the wind exceeds the threshold',
     'A step without wind leaves bed and airborne sediment alone and reports no pickup, flux or bed level change. '
     'In wind, a fraction has saturated transport, and is picked up, only where the shear velocity exceeds its threshold, which is never below that of bare dry sand of its grain size '
     '(times a threshold mask), and equals it where no surface property applies. Flooded cells, cells too wet for transport and cells whose non-erodible layer is exposed supply no sediment. '
     'Threshold and saturated concentration, of the bed as it is and of a flat bare bed at the borders, are what the chosen formulations of moisture, salt, roughness and transport give.',
     ['inputs', 'histories'],
     'all winds, transport, grain speed, moisture and salt formulations, roughness elements, masks, thresholds from file and histories of water, wind and bed',
     'Tests compare final results of a few cases; threshold formulations other than the default are never run.',
     ['aeolis/threshold.py', 'aeolis/transport.py', 'aeolis/model.py'],
     [('threshold', 'threshold.compute'), ('saturated transport', 'transport.equilibrium'), ('calm', 'AeoLiS.update')],
     [('threshold', 'shear velocity threshold per fraction', 's[uth]')],
     ['threshold, shear velocity, saturated concentration and pickup after every step'],
     'Bounds are evaluated from the state the step left; storms, calms, tides and rain are generated per seed.')

prop('C17', 'Water, moisture, groundwater and salt stay physical; transects are independent',
     'After every step the water surface is the higher of water level and bed. Moisture lies between zero and saturation, is at saturation where the cell has been wetted and, drying by infiltration, halves in every drying time. '
     'The groundwater is finite, equals the water level under the sea and lies neither above bed or water level nor below all levels so far. Salt content lies within zero and one. '
     'Fast-forwarding leaves them all alone. In a model without alongshore coupling every transect evolves like the one-dimensional model of that transect.',
     ['histories', 'inputs'],
     'all bathymetries, tides, waves, run-up, weather, time steps and sequences of steps and fast-forwards',
     'Tests run no groundwater, salt or capillary process.',
     ['aeolis/hydro.py'],
     [('water level, run-up', 'hydro.interpolate'), ('moisture', 'hydro.update'), ('groundwater', 'hydro.update_gw (Runge-Kutta)')],
     [('water and moisture', '', 's[zs,TWL,moist,gw,salt]')],
     ['state after every step'],
     'Drying and wetting is recomputed per cell; two-dimensional models are compared with one-dimensional twins in lockstep.')

prop('C23', 'Shifting, mirroring or extruding a coast does the same to all results',
     'Shifting a model along a circular coast, mirroring it alongshore, mirroring it across the shore or extruding a profile alongshore (with all inputs and the wind) '
     'shifts, mirrors or extrudes all states after every step, and changes nothing else.',
     ['inputs', 'histories', 'configurations'],
     'all configurations, inputs and histories of models whose formulations do not single out a direction',
     'Tests compare no model with a transformed one.',
     ['aeolis/model.py', 'aeolis/bed.py', 'aeolis/wind.py', 'aeolis/threshold.py', 'aeolis/transport.py', 'aeolis/avalanching.py'],
     [('advection in four quadrants of wind', 'AeoLiS.solve and variants'), ('boundary conditions', 'AeoLiS.solve and variants'), ('neighbours', 'bed, threshold, avalanching')],
     [], ['state of the model and its transformed twin after every step'],
     'A transformed twin runs under the same random numbers; its states are transformed back and compared.')

prop('C24', 'Equivalent descriptions of a case give the same results',
     'Describing a case in another way changes no result: all times shifted by a constant, wind directions in the other convention, another orientation of North for the same angle '
     'between wind and grid, series continuing beyond the end or carrying intermediate samples, a configuration in another order and layout, other output and restart settings, and all levels of bed, water and vegetation measured from another datum.',
     ['inputs', 'configurations'],
     'all configurations, inputs and histories',
     'Tests run every case in a single description.',
     ['aeolis/model.py', 'aeolis/inout.py', 'aeolis/wind.py', 'aeolis/fences.py', 'aeolis/vegetation.py', 'aeolis/shear.py', 'aeolis/utils.py'],
     [('reading the configuration', 'inout.read_configfile, parse_value'), ('convention', 'AeoLiS.initialize'), ('start time', 'AeoLiS.initialize'), ('orientation', 'wind.interpolate, wind.shear')],
     [], ['state of both descriptions after every step'],
     'Both descriptions run under the same random numbers; layout and output settings are compared bit for bit, the others within rounding.')

prop('C18', 'Plants appear, grow, spread, die and shelter as specified',
     'Whatever the history of burial, erosion, flooding and weather, cover and height of plants stay within bounds and belong together. Plants appear only where they can germinate or '
     'spread to, at the configured frequencies per year; they grow at the configured rate over the actual time step, changed by burial and erosion of that step only; they die under water and below '
     'their lowest elevation. Plants only reduce the shear velocity, do not turn it, and leave it alone where there are none.',
     ['histories', 'inputs'],
     'all initial covers, growth, germination and spreading settings, time steps, accelerations, winds, tides and histories of burial and erosion',
     'Tests compare two final files without germination, spreading or dying plants.',
     ['aeolis/vegetation.py', 'aeolis/model.py'],
     [('germination, spreading, growth', 'vegetation.germinate, vegetation.grow'), ('shelter', 'vegetation.vegshear')],
     [('plants', 'cover, height and the plants that germinated or spread', 's[rhoveg,hveg,germinate,lateral]')],
     ['plants and shear velocity after every step'],
     'An independent growth model is evaluated from the state before and after each step; shear is compared with a bare twin in lockstep; frequencies are judged over all cells and steps of a run.')
prop('C19', 'Variables fixed by hotstart files or by the user stay fixed',
     'A grid variable given by a hotstart file, or fixed through the model state, keeps exactly that value in every later step, whatever the processes would make of it, until it is released; '
     'it then accepts new values again. Forcing fixed at a value acts as a series that holds that value. A hotstart file that is damaged or cannot be read is refused before the first step; one of an unknown variable creates nothing.',
     ['histories', 'inputs', 'fault_sequences'],
     'all fixed variables, ways to fix them, histories of steps, fast-forwards, writes, releases and kills with restart, and damages of hotstart files',
     'Tests load no hotstart files and fix no variables.',
     ['aeolis/model.py', 'aeolis/inout.py', 'aeolis/hydro.py', 'aeolis/wind.py'],
     [('immutable variables', 'model.ModelState'), ('hotstart', 'AeoLiSRunner.load_hotstartfiles')],
     [('fixed variables', 'names and values', 'ModelState.ismutable'), ('hotstart files', 'one grid per file', '<var>.hotstart')],
     ['the fixed variables after every step', 'exceptions of the run'],
     'Values are compared bit for bit with those fixed; twin models with constant series are the reference for fixed forcing.')
prop('C20', 'Saved configurations reproduce the model and never destroy earlier ones',
     'Saving changed parameters writes a configuration (and files for arrays) from which a fresh model gets the same parameters, value for value, and makes the same run; a configuration means the same in any notation of numbers, lists and remarks. Every earlier version of every file '
     'that is replaced remains as a backup, none of which is ever overwritten. A disk error is reported; after a disk error or a kill at any point, no earlier version is lost and saving again succeeds.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'all parameters and values, sequences of changes and saves, working directories and file names, and points at which a file operation fails or the process is killed',
     'Tests save no configuration.',
     ['aeolis/inout.py', 'aeolis/model.py', 'aeolis/utils.py'],
     [('writing', 'inout.write_configfile'), ('backups', 'inout.backup'), ('parsing', 'inout.read_configfile, utils.parse_value')],
     [('configuration', 'parameters in memory', 'p'), ('files', 'configuration, array files, numbered backups', 'disk')],
     ['files in the model directory', 'parameters read back', 'state of the run of the saved configuration'],
     'The contents of all files ever seen are recorded and searched for after each save, fault and recovery.', level='fault_enumeration')
prop('C21', 'Generated wind series have the promised length, range and statistics',
     'For all parameters and random numbers the wind generator finishes and yields one speed per time step from zero until at least the duration, between zero and the maximum speed, following the Weibull distribution of its '
     'mean speed. Series depend on their parameters and random numbers only, not on other generators, models or earlier series. The written file, also by the command line, holds exactly that series with '
     'direction zero and drives a model with it; disk errors are reported.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'all generator parameters, random numbers, orders in which generators and models advance, and disk errors',
     'Tests run the command line generator once with its defaults and check that a file exists.',
     ['aeolis/model.py', 'aeolis/console.py'],
     [('generator', 'model.WindGenerator'), ('command line', 'console.wind')],
     [('wind series', 'time, speed', 'WindGenerator'), ('wind file', 'time, speed, direction', 'disk')],
     ['time series of the generator', 'the written file', 'wind of the model that reads it'],
     'The random numbers are drawn by the simulator, extreme ones included; the same draws must give the same series in any order of events.')
prop('C25', 'The command line runs the same model and reports honestly',
     'A run from the command line, from any directory and with any path, callback and restart option, leaves exactly the files that the same run through the library leaves. '
     'It ends with status zero only if the run was complete; what cannot run, disk errors, and exceptions from callbacks end with another status, a kill loses nothing already recorded. The examples are copied completely, '
     'into new directories only. Deprecated commands point to their successors and write nothing.',
     ['inputs', 'fault_sequences', 'crash_points', 'histories'],
     'all command lines, scenarios, working directories, callbacks, restart files and points at which a disk operation fails or the process is killed',
     'Tests call the examples command and one deprecated command without looking at the files.',
     ['aeolis/console.py', 'aeolis/model.py', 'aeolis/__init__.py'],
     [('command line', 'console.start_aeolis_app'), ('callbacks', 'AeoLiSRunner.parse_callback'), ('examples', 'console.examples')],
     [('model directory', 'configuration, output, restart and log files', 'disk')],
     ['exit status', 'files', 'working directory'],
     'The entry point and the library are run under the same clock, disk faults and random numbers, and exit status and files are compared.', level='fault_enumeration')
prop('C26', 'Dune erosion cuts back the profile by the volume waves take, and nothing else',
     'With dune erosion, a row of the bed changes only if the total water level exceeds the dune toe, and then to the profile that loses the volume given by the wave impact model '
     '(erosion coefficient, exceedance of the toe, share of waves, period, time step) above a line through the toe; no cell is raised, the non-erodible layer stays, '
     'and no other variable, row or grain size changes. Floods without waves erode nothing.',
     ['inputs', 'histories'],
     'all beaches, water levels, waves, erosion settings and histories of storms and calms',
     'Tests do not run dune erosion.',
     ['aeolis/erosion.py', 'aeolis/model.py'],
     [('dune erosion', 'erosion.run_ph12')],
     [('bed', 'profile of every row', 's[zb]'), ('water', 'level, set-up, run-up, swash', 's[R,eta,sigma_s]')],
     ['bed levels of a model with and of a duplicate without dune erosion after every step'],
     'In every step a duplicate of the model is stepped without dune erosion; the difference is compared with an independent evaluation of the cut profile.')
prop('C27', 'Sediment enters and leaves through the boundaries as configured',
     'After every windy step, for all solvers, the sediment in the air at the offshore, onshore and lateral boundaries satisfies the configured condition of that side, whatever the other sides: a given share of the '
     'equilibrium (flux, noflux), a given flux (constant), or no change of the concentration or its gradient (uniform, gradient); the face based solvers carry that flux through the outer faces. '
     'Conditions that are unknown or not implemented are refused before transport is computed.',
     ['inputs', 'histories', 'fault_sequences'],
     'all combinations of boundary conditions and values, solvers, schemes, grids, winds and plumes in the air',
     'Tests use the default conditions and look at the final bed of one case each.',
     ['aeolis/model.py'],
     [('solvers', 'model.AeoLiS.solve, solve_steadystate, solve_pieter, solve_steadystatepieter')],
     [('air', 'concentration per fraction', 's[Ct]')],
     ['concentration, velocity, pickup after every step', 'exceptions'],
     'Prescribed concentrations are recomputed from the state after each step; for face based solvers the sediment of every boundary cell is balanced with the flux through its outer face.')
prop('C28', 'What a coupled model supplies takes effect as supplied',
     'Water levels and waves that a coupled model supplies through set_var (variables named in external_vars) are used in the following steps exactly as supplied, until new ones arrive: the series and masks of the model '
     'itself do not overwrite or mask them, wet cells are those where the supplied level exceeds the bed, dry cells take the level of the nearest wet cell, run-up follows from the supplied waves, '
     'and a supplied domain without any water is simply dry. A model fed with what another takes from its own series gets the same water, run-up and bed.',
     ['inputs', 'histories', 'schedules'],
     'all fields of water levels and waves, points in time of exchange, masks and settings, with and without own series',
     'Tests do not couple models.',
     ['aeolis/hydro.py', 'aeolis/model.py'],
     [('hydrodynamics', 'hydro.interpolate, hydro.update'), ('exchange', 'model.AeoLiS.set_var')],
     [('water', 'levels, waves, run-up', 's[zs,SWL,TWL,Hs,Tp,R]')],
     ['supplied fields and derived levels after every step', 'states of a model running on its own series'],
     'The simulator plays the coupled model and keeps what it supplied; levels, run-up and wetness are recomputed from that after every step, or all states are compared with those of a twin.')
prop('C29', 'Relief and roughness shape the wind as specified',
     'In every step the undisturbed shear velocity follows the law of the wall over the roughness length of the chosen method; stress and shear velocity belong together and calms have none. '
     'Without steering it is the shear everywhere; with it, an even bed leaves it unchanged whatever its elevation, profiles get the perturbation of the slopes of their own bed, raising the whole bed or '
     'doubling the wind changes nothing in the relative shear, half the relief gives half the perturbation, shear peaks at crests. '
     'Separation bubbles only arise where the bed is steeper than the configured angle, lie on or above the bed, stay within the height of the relief, and reduce shear.',
     ['inputs', 'histories'],
     'all beds and changes of beds, winds, grids, roughness and separation settings',
     'Tests run one flat and one transverse bed without looking at the shear.',
     ['aeolis/wind.py', 'aeolis/shear.py', 'aeolis/separation.py'],
     [('wind', 'wind.shear, wind.calculate_z0, wind.compute_shear1d'), ('areas', 'shear.WindShear'), ('separation', 'shear.WindShear.separation, separation')],
     [('shear', 'velocity and stress per cell', 's[ustar*,tau*]'), ('separation', 'surface', 's[zsep,hsep]')],
     ['shear fields of a model and of its twins after every step'],
     'Profiles are compared with an independent evaluation, areas with twins of the model over a raised, halved, even or unseparated bed or in another wind, stepped in lockstep.')
prop('C30', 'Fences shelter what lies in their lee',
     'A fence keeps the elevation of its top: sand that buries it shortens it, scour lengthens it, it counts between a tenth and one and a half metres and is gone once undermined. '
     'In wind it reduces shear in its lee by the configured formula of the distance in fence heights along the wind, less and less with distance, and nothing elsewhere; it neither turns the wind nor adds to it, '
     'wherever the datum is and whatever other fences stand. Without fences standing all is as without the process.',
     ['inputs', 'histories'],
     'all fences, beds and their changes, winds and calms, grids and reduction settings',
     'Tests do not contain fences.',
     ['aeolis/fences.py'],
     [('fences', 'fences.initialize, fences.update_fences, fences.fence_shear1d, fences.fence_shear2d')],
     [('fences', 'initial and present height', 's[fence_height_init,fence_height,fence_base]')],
     ['fence heights and shear of a model and of its twin without fences after every step'],
     'Tops of fences are tracked by the harness; shear is compared with the formula over the twin on profiles, and with where wakes can be over areas.')
prop('C31', 'Watching, plotting and recording leave a run as it is',
     'Figures of the input, logging at debug level, reports of progress whatever the clock does, reading variables, statistics, parameters and metadata at any moment, recording more variables or statistics, '
     'recording at another interval, and writing restart files change nothing in a run: it takes the same steps through bitwise the same states and parameters, uses the same random numbers, and leaves the same '
     'values in the records it would have made anyway. Figures asked for are made.',
     ['inputs', 'histories', 'schedules'],
     'all configurations and all mixes and moments of watching',
     'Tests neither draw figures nor compare runs.',
     ['aeolis/inout.py', 'aeolis/model.py', 'aeolis/netcdf.py'],
     [('figures', 'inout.visualize_grid, visualize_timeseries, visualize_spatial'), ('output', 'AeoLiSRunner.output_write, output_update, get_var, get_statistic'), ('progress', 'AeoLiSRunner.print_progress')],
     [('model', 'all states and parameters', 's, p'), ('output', 'records', 'disk')],
     ['states, parameters and random state before every step', 'records', 'figures'],
     'The same scenario is run undisturbed and watched, with the same random numbers, and compared bitwise.')

prop('C32', 'Beach moisture keeps its balance and follows the groundwater',
     'Soil moisture changes only by drainage towards field capacity with the given halving time, by rain and by Penman evaporation over the given thickness, within the residual and the saturated moisture of '
     'sand; flooded cells are saturated; and sand never holds less than capillary rise gives it: with van Genuchten\'s curve of wetting or drying at its height above the groundwater, and between them along '
     'Mualem\'s scanning curves from wherever the groundwater turned. Groundwater follows the Boussinesq equation between the water level at the shoreline and the given landward border, at any bed, time step and '
     'reduction factor, is nowhere above the bed unless flooded, and rises and falls with the tide also where run-up is not computed. Every step ends.',
     ['inputs', 'histories', 'schedules'],
     'tides, waves, weather, sands, landward borders, time steps and reduction factors, and beds that others move between steps',
     'Tests run the regression cases without this method of moisture; its loops of wetting and drying depend on the history of groundwater in every cell.',
     ['aeolis/hydro.py', 'aeolis/model.py'],
     [('balance', 'hydro.update, hydro.evaporation'), ('groundwater', 'hydro.Boussinesq, hydro.update, hydro.interpolate'), ('retention', 'hydro.hdelta, hydro.SWR_curve')],
     [('moisture', 'moist, moist_swr, scan_w, scan_d, h_delta', 's'), ('water', 'gw, gw_prev, wetting, SWL, DSWL, TWL', 's'), ('weather', 'meteo', 's')],
     ['moist, moist_swr, gw, TWL and DSWL after every step'],
     'An independent account of the water of every cell, a solution of the Boussinesq equation by the documented scheme, and per-cell automata of wetting and drying, are compared after every step of seeded histories '
     'in which the simulator also moves the bed and shortens steps. Flow is not compared under waves and seepage faces, nor beyond the stability of the explicit scheme.')

prop('C33', 'What is switched off, or has nothing to act on, leaves no trace',
     'Parameters, files and states that belong to processes which are off, or to methods which are not selected, change nothing at all. A process that is on but has nothing to act on (no slope steep enough to '
     'avalanche, no plants, no fence, a toe above the water, a non-erodible layer far below, masks of one, waves of no height, no separation) gives the results of a model without it. A model without updates of the bed '
     'keeps its bed (avalanches, dune erosion and reset by water aside) and computes the same transport; one without transport or without wind picks nothing up and keeps bed and sediment as they are; one without thresholds has none.',
     ['inputs', 'configurations', 'histories'],
     'all configurations, all settings of what they do not use, and histories with beds and steps changed by the simulator',
     'Tests run a handful of fixed configurations; no test compares one configuration with another.',
     ['aeolis/model.py', 'aeolis/transport.py', 'aeolis/wind.py', 'aeolis/threshold.py', 'aeolis/bed.py', 'aeolis/vegetation.py', 'aeolis/fences.py', 'aeolis/hydro.py', 'aeolis/avalanching.py', 'aeolis/erosion.py'],
     [('switches', 'AeoLiS.update, and the entry of every process'), ('methods', 'transport.equilibrium, wind.calculate_z0, vegetation.vegshear, hydro.update'), ('separation', 'transport.duran_grainspeed, wind.separation1d')],
     [('model', 'all states', 's')], ['all states of both models after every step'],
     'Both models run side by side under the same random numbers and interventions; unused settings are compared bit for bit, processes without anything to act on within rounding.')

prop('C34', 'Input that cannot be read or understood is refused',
     'A run does not go on with an input it needs but cannot read (file missing, empty, unreadable, torn within a record, with text for a number, of another size than the grid, a disk error while reading), with a '
     'process set to something other than on or off, with text for a number, or with a method it does not know: it ends with an error before or in its first time step (boundary conditions: the first step of '
     'its solver). A disk error shows up as such; unknown methods, switches and numbers give an error that names them. Input refused before the first step leaves results of earlier runs alone, and no refused run '
     'changes the results of the next good one in the same process.',
     ['inputs', 'fault_sequences'],
     'all configurations, all their input files and the ways these can be damaged, disk errors, all methods, switches and numbers',
     'Tests only read valid files; which input is used depends on the configuration.',
     ['aeolis/inout.py', 'aeolis/model.py', 'aeolis/transport.py', 'aeolis/wind.py', 'aeolis/threshold.py', 'aeolis/hydro.py', 'aeolis/vegetation.py', 'aeolis/bed.py', 'aeolis/utils.py'],
     [('reading', 'inout.read_configfile, inout.parse_value'), ('judging', 'inout.check_configuration and the use of every input and method')],
     [('model', 'all states', 's'), ('disk', 'input files', 'd')], ['the error, the steps made before it, the output file, the states of runs before and after'],
     'The same scenario runs well, with one damaged input, and well again in one process; the damaged one has to end in an error at its start, the others have to agree bit for bit.',
     level='fault_enumeration')
