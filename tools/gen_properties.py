#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where properties are edited)."""
import json, os
B = 'balloon_learning_environment/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=qtext), why_tests_cant=why,
    anchors=dict(files=[B + f for f in files],
      state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
      mechanism=[dict(name=n, where=B + w) for n, w in mech],
      observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- simulator
p('C01', 'Terminal flags are truthful, exclusive and absorbing',
  'After every environment step the episode is reported terminal exactly when the balloon ran out of power, burst or lost superpressure; the info dictionary flags exactly that cause and at most one cause, and a reset starts a balloon that is OK. Once a terminal event has happened no further step is accepted until the environment is reset, and a refused step moves neither the balloon nor the clock.',
  ['inputs', 'histories'], 'every seed, action sequence and balloon state, including histories that end in each of the three terminal causes, and several causes in the same step',
  'unit tests patch one status at a time; they do not produce a physical terminal event, a second step after one, or two causes in one step',
  ['env/balloon_env.py', 'env/balloon/balloon.py'],
  [('terminal computed from the three status flags', 'env/balloon_env.py'), ('assert status OK before stepping', 'env/balloon/balloon.py')],
  [('status', 'OK or the terminal cause', 'env/balloon/balloon.py')], ['BalloonEnv.step', 'BalloonEnv.reset', 'Balloon.simulate_step'])
p('C02', 'An agent step is three minutes of wind drift in ten-second substeps',
  'An environment step advances the elapsed time and the calendar time together by exactly three minutes, in ten-second substeps that stop early only at the substep in which a terminal event occurs. During a step the balloon drifts by exactly the ground-truth wind at its position, pressure and elapsed time at the start of the step, multiplied by the time simulated, and the wind measured after the step is the one at the new position, pressure and time.',
  ['inputs', 'histories'], 'every wind field, seed, action sequence and episode length, including the truncated last step of an episode',
  'tests check one step in a constant or mocked wind, where sampling the wind at the wrong place or time is invisible',
  ['env/balloon_arena.py', 'env/balloon/balloon.py', 'utils/constants.py'],
  [('wind sampled once before simulate_step', 'env/balloon_arena.py'), ('substep loop', 'env/balloon/balloon.py')],
  [('time_elapsed/date_time/x/y', 'clock and position', 'env/balloon/balloon.py')], ['BalloonEnv.step', 'BalloonArena.get_measurements'])
p('C03', 'Battery charge obeys the energy balance and never leaves its capacity',
  'In every substep the charge changes by (solar charging - load) x time and is clipped to [0, capacity]; solar charging is zero when the sun is below the panel limit and equals the solar model otherwise, and the load is the day or night hotel load (chosen by the same sun test) plus the compressor power in use. The balloon is out of power exactly when the charge reaches zero, and the state of charge always lies in [0, 1].',
  ['inputs', 'histories'], 'every time of day, latitude, pressure, command and charge, including empty, full and dawn/dusk crossings inside a step',
  'tests check the sign of one charge change; they never accumulate over a day or cross the limits',
  ['env/balloon/balloon.py', 'env/balloon/solar.py'], [('battery update and clip', 'env/balloon/balloon.py')],
  [('battery_charge', 'stored energy', 'env/balloon/balloon.py')], ['Balloon.simulate_step'])
p('C04', 'Commands act on the ballonet as ordered: pump, vent or nothing',
  'When DOWN takes effect the compressor runs at the most efficient power for the current pressure ratio and pumps in the corresponding mass of air; when UP takes effect the compressor is off and air is vented through the valve according to superpressure and gas density; when STAY takes effect power and mass flow are zero. The amount of ballonet air changes by exactly that flow over the substep and is never negative, and the lift gas never changes.',
  ['inputs', 'histories'], 'every pressure ratio, superpressure, temperature and command sequence, including venting an empty ballonet',
  'tests check directions at one state; the tables, the flow law and the non-negativity at the boundary are not exercised',
  ['env/balloon/balloon.py', 'env/balloon/acs.py'], [('ACS branch of the substep', 'env/balloon/balloon.py'), ('efficiency and power tables', 'env/balloon/acs.py')],
  [('mols_air', 'ballonet air', 'env/balloon/balloon.py')], ['Balloon.simulate_step', 'acs.get_most_efficient_power', 'acs.get_fan_efficiency', 'acs.get_mass_flow'])
p('C05', 'Envelope volume, superpressure and burst/zero-pressure verdicts',
  'Volume and superpressure are the unique solution of the gas law with the linear envelope: when the free gas volume does not exceed the base volume the superpressure is zero and the volume is the free volume, otherwise both equations hold. The balloon bursts exactly when superpressure exceeds the envelope limit and is zero-pressure exactly when superpressure is not positive, unless it runs out of power in the same substep, which takes precedence.',
  ['inputs'], 'every gas inventory, temperature, pressure, envelope and limit, on both sides of the inflation boundary',
  'tests evaluate two or three hand-picked states, none at a boundary or with two causes',
  ['env/balloon/balloon.py'], [('calculate_superpressure_and_volume', 'env/balloon/balloon.py')],
  [('envelope_volume/superpressure', 'envelope state', 'env/balloon/balloon.py')], ['balloon.calculate_superpressure_and_volume', 'Balloon.simulate_step'])
p('C06', 'Vertical motion and gas temperature follow the flight dynamics',
  'In every substep pressure changes by the ascent rate given by buoyancy versus drag at the current state, mapped through the local pressure-height slope, rising when the displaced air outweighs the system and sinking otherwise. The ambient temperature follows the atmosphere at the current pressure, and the gas temperature integrates the radiative and convective balance for the current sun, infrared and ambient state.',
  ['inputs', 'histories'], 'every reachable balloon state, atmosphere, sun position and infrared level',
  'tests assert only that a heavy balloon sinks and a light one rises, or that a temperature has a sign',
  ['env/balloon/balloon.py', 'env/balloon/thermal.py'], [('steps 2 and 3 of the substep', 'env/balloon/balloon.py'), ('d_balloon_temperature_dt', 'env/balloon/thermal.py')],
  [('pressure/ambient_temperature/internal_temperature', 'vertical and thermal state', 'env/balloon/balloon.py')], ['Balloon.simulate_step', 'thermal.d_balloon_temperature_dt'])
p('C07', 'Altitude safety: no descent near the floor, forced ascent below it',
  'Below 50,000 ft the command that takes effect is always ascend; within the 500 ft buffer above it a descend command becomes stay and other commands pass; after having been low, descent stays blocked until the balloon is 1,000 ft above the floor; otherwise commands pass unchanged. Navigation is reported paused exactly while the layer is restricting.',
  ['histories', 'inputs'], 'every history of altitudes and commands',
  'tests walk a few hand-written altitude sequences; hysteresis is a property of all sequences',
  ['env/balloon/altitude_safety.py'], [('three-state machine with hysteresis', 'env/balloon/altitude_safety.py')],
  [('layer state', 'nominal/low/very low', 'env/balloon/altitude_safety.py')], ['AltitudeSafetyLayer.get_action', 'AltitudeSafetyLayer.navigation_is_paused'])
p('C08', 'Envelope safety: pressure extremes block descent or force ascent',
  'Within 150 Pa of zero superpressure or of the envelope limit the command that takes effect is always ascend; within 250 Pa descend becomes stay and other commands pass; after having been in such a zone on one side, descent stays blocked until superpressure is a further 50 Pa inside that limit; otherwise commands pass unchanged. Navigation is reported paused exactly while the layer is restricting.',
  ['histories', 'inputs'], 'every history of superpressures and commands and every envelope limit',
  'tests walk a few hand-written superpressure sequences; jumps between the low and the high side are not sampled',
  ['env/balloon/envelope_safety.py'], [('five-state machine with hysteresis', 'env/balloon/envelope_safety.py')],
  [('layer state', 'nominal/low/high and criticals', 'env/balloon/envelope_safety.py')], ['EnvelopeSafetyLayer.get_action', 'EnvelopeSafetyLayer.navigation_is_paused'])
p('C09', 'Power safety keeps enough charge to float until after sunrise',
  'At night, as soon as the charge left after floating to 30 minutes past sunrise would fall below 2.5% of capacity, descend becomes stay and remains blocked for the rest of the night; by day it is blocked only while it was already blocked and the charge is below 5%. The layer never blocks or changes any other command, sunrise and sunset repeat daily however far the clock has advanced, and navigation is reported paused exactly while descent is blocked.',
  ['histories', 'inputs'], 'every history of times, charges and commands over any number of days',
  'tests cover single days with a handful of charges; multi-day rollover with pausing carried across dawn is not sampled',
  ['env/balloon/power_safety.py'], [('night/day automaton with latch', 'env/balloon/power_safety.py')],
  [('navigation_is_paused and next sunrise/sunset', 'latch and ephemeris', 'env/balloon/power_safety.py')], ['PowerSafetyLayer.get_action', 'PowerSafetyLayer.navigation_is_paused'])
p('C10', 'Safety layers compose: power, then envelope, then altitude',
  'The command that takes effect in a step is the commanded one filtered by the power layer (when enabled), then the envelope layer, then the altitude layer, each evaluated once per step on the state at its start; hence an effective descend was always commanded and permitted by all layers. The recorded last command is the commanded one, and navigation is reported paused exactly when some layer is restricting.',
  ['histories', 'inputs', 'configurations'], 'every combination of layer states, commands and enable flags, and every step history',
  'tests mock single layers; combinations where layers disagree and per-step versus per-substep evaluation are not reached',
  ['env/balloon/balloon.py', 'env/balloon/power_safety.py', 'env/balloon/envelope_safety.py', 'env/balloon/altitude_safety.py'],
  [('layer chain in simulate_step', 'env/balloon/balloon.py')], [('last_command/navigation_is_paused', 'command record and pause flag', 'env/balloon/balloon.py')], ['Balloon.simulate_step', 'BalloonState.navigation_is_paused'])
p('C11', 'Seeded episodes are reproducible and independent of everything else',
  'Two environments with the same configuration, seed and action sequence produce identical observations, rewards, terminal flags and info, whatever happened before the seed was applied, whatever other environments exist or are stepped in between, and whether the seed is given at construction, by seed() or by reset(). Successive unseeded resets of one environment give different episodes, and different seeds give different episodes.',
  ['inputs', 'histories', 'schedules'], 'every seed, action sequence, prior history and interleaving of environment instances',
  'tests compare two fresh environments for a few steps; reuse after a long or terminal episode and interleaving are not covered',
  ['env/balloon_env.py', 'env/balloon_arena.py', 'env/simplex_wind_noise.py', 'env/balloon/standard_atmosphere.py'],
  [('PRNG key threading through reset', 'env/balloon_arena.py'), ('seed()', 'env/balloon_env.py')], [('_rng', 'PRNG key', 'env/balloon_env.py')], ['BalloonEnv'])
p('C12', 'Saving and restoring simulator state resumes the same flight',
  'A copy of the simulator state taken at any point, when restored into the same or another arena, continues under the same commands through exactly the same balloon states, winds and terminal events as the original flight, and stepping one does not disturb the other. Getting the state has no side effects. (Observations after a restore are excluded: the code documents that the feature constructor is not restored.)',
  ['histories', 'crash_points'], 'every save point, continuation and target arena',
  'tests check that a setter stores what it was given, not that the continuation is the same',
  ['env/balloon_arena.py', 'env/simulator_data.py', 'env/balloon/balloon.py'],
  [('get/set_simulator_state', 'env/balloon_arena.py')], [('SimulatorState', 'balloon, wind field, atmosphere', 'env/simulator_data.py')], ['BalloonArena.get_simulator_state', 'BalloonArena.set_simulator_state'])
p('C13', 'Initial conditions lie in the documented ranges',
  'Every reset starts a balloon within 200 km of the station, at a latitude within 10 degrees of the equator and longitude within 175 degrees, at a time in the sampling interval, at a pressure in the navigable range, with upwelling infrared of at least the documented minimum, zero elapsed time, nominal status, a charged battery and a thermally stable, positively pressurised envelope. The sampled quantities are functions of the seed alone, follow their documented distributions, vary with the seed and are independent of each other.',
  ['inputs'], 'every seed', 'tests sample a few seeds per sampler',
  ['env/balloon_arena.py', 'utils/sampling.py', 'env/balloon/stable_init.py'], [('samplers', 'utils/sampling.py'), ('cold_start_to_stable_params', 'env/balloon/stable_init.py')],
  [], ['BalloonArena.reset', 'utils.sampling'])
# ---------------------------------------------------------------- observations, reward
p('C14', 'Ambient observation features encode the balloon state',
  'The first sixteen observation entries are the documented encodings of pressure, battery, sun elevation, time to sunrise, heading and distance to the station, last command (exactly one of three set), energy excess, navigation pause, compressor power, and pressure ratio of the last observed state, every entry being finite and inside the declared observation space; an observation once given out never changes. The constructor says which pressures its encoding represents, both ends included.',
  ['inputs', 'histories'], 'every reachable and directly set balloon state, position, time and command',
  'tests compare a few entries at a few states and skip the boundaries of the encodings',
  ['env/features.py', 'utils/transforms.py'], [('ambient feature block', 'env/features.py')], [], ['PerciatelliFeatureConstructor.get_features', 'PerciatelliFeatureConstructor.observation_space'])
p('C15', 'Wind-column features: centred on the balloon, truthful, masked',
  'The wind part of the observation has 361 slots of (uncertainty, angle, magnitude) whose centre is the pressure level nearest to the balloon; a slot whose level lies inside the accessible pressure range carries the encoded estimated wind relative to the station bearing and its uncertainty, and every other slot carries the unreachable marker (0, 1, 1) or, outside the level grid, the same marker. Every entry lies in [0, 1] and the observation always has the declared shape.',
  ['inputs', 'histories'], 'every balloon pressure, position, wind field and observation history',
  'tests check a constant wind at one pressure; masking edges and centring at the ends of the grid are not reached',
  ['env/features.py', 'env/balloon/pressure_range_builder.py', 'env/wind_gp.py'], [('wind feature block and masking', 'env/features.py'), ('get_pressure_range', 'env/balloon/pressure_range_builder.py')], [], ['PerciatelliFeatureConstructor.get_features'])
p('C16', 'Named feature view is the inverse of the observation encoding',
  'Parsing an observation through the named feature view returns the physical quantities it was built from (pressure, charge, times, distance, command, flags, wind at each level), and asking for a wind level outside the vector is rejected instead of returning some other wind.',
  ['inputs'], 'every observation the simulator can produce and every level index', 'tests parse two hand-built vectors and no invalid level',
  ['env/features.py', 'utils/transforms.py'], [('NamedPerciatelliFeatures', 'env/features.py')], [], ['NamedPerciatelliFeatures'])
p('C17', 'The wind model is exact Gaussian-process regression on fresh observations',
  'The wind estimate at any queried point is the forecast plus the Gaussian-process posterior mean of forecast errors, using exactly the observations made less than six hours before the time queried, and the reported deviation is the posterior deviation. With no usable observation the estimate is the forecast with zero deviation, a batch of points at one place and time answers like the points one by one, and querying never changes later answers.',
  ['histories', 'inputs'], 'every sequence of observations and queries, including long gaps and repeated positions',
  'tests use at most a few observations within minutes; expiry and long gaps are not exercised',
  ['env/wind_gp.py'], [('observe/query', 'env/wind_gp.py')], [('measurement buffer', 'observed errors with time', 'env/wind_gp.py')], ['WindGP.observe', 'WindGP.query', 'WindGP.query_batch', 'WindGP.reset'])
p('C18', 'Reward is the documented function of distance and power use',
  'The reward is 1 inside the station radius and dropoff x 2^(-excess distance / half-life) outside, multiplied by 0.95 - 0.3 x (compressor power rescaled from [100 W, 300 W] to [0, 1]) exactly when the last command was descend and the balloon has no excess energy. Hence it lies in [0, 1], never increases with distance, and equals the value returned by the step that reached the state.',
  ['inputs', 'configurations'], 'every position, command, compressor power, energy state and reward parameter setting',
  'tests check a handful of distances and one penalty value',
  ['env/balloon_env.py', 'env/balloon/balloon.py', 'utils/transforms.py'], [('perciatelli_reward_function', 'env/balloon_env.py')], [], ['BalloonEnv.step', 'balloon_env.perciatelli_reward_function'])
# ---------------------------------------------------------------- winds, physics libraries
p('C19', 'Wind truth is forecast plus noise, and wind fields answer consistently',
  'For every wind field the ground truth at a point equals its forecast plus its noise there, a column query equals the point queries, repeated queries give identical answers in any order, and resetting with the same key and time gives the same field while different keys give different noise. The static field always forecasts its documented altitude-layered wind, and a field that needs a reset refuses queries before it.',
  ['inputs', 'histories'], 'every query sequence, key and reset history', 'tests query single points once and mock the noise',
  ['env/wind_field.py', 'env/simplex_wind_noise.py', 'env/grid_based_wind_field.py'], [('get_ground_truth', 'env/wind_field.py'), ('SimplexWindNoise', 'env/simplex_wind_noise.py')], [], ['WindField.get_forecast', 'WindField.get_forecast_column', 'WindField.get_ground_truth', 'WindField.reset'])
p('C20', 'Grid wind fields interpolate, clamp in space and boomerang in time',
  'A grid-based forecast equals the stored field at grid nodes and the multilinear interpolation of the surrounding nodes elsewhere; positions and pressures outside the grid take the value at the nearest edge, and times beyond the horizon run back and forth over the stored period. The forecast never depends on earlier queries and is bounded by the stored extremes.',
  ['inputs', 'histories'], 'every position, pressure and time, including far outside the grid and many horizons later', 'tests mock the interpolator or check one corner and one time beyond the horizon',
  ['env/grid_based_wind_field.py', 'env/generative_wind_field.py', 'env/grid_wind_field_sampler.py', 'generative/vae.py'], [('interpolator, clip and boomerang', 'env/grid_based_wind_field.py')], [], ['GridBasedWindField.get_forecast', 'GridBasedWindField.get_forecast_column'])
p('C21', 'Atmosphere maps height and pressure to each other consistently',
  'For every sampled atmosphere, converting height to pressure and back returns the same point, pressure falls strictly with height, temperature is continuous and follows the sampled lapse rates, density follows the gas law, and lookups outside the model limits are refused. Resetting with the same key gives the same atmosphere; the atmosphere is fixed between resets.',
  ['inputs'], 'every seed, height and pressure in the supported range', 'tests check a few points of one atmosphere',
  ['env/balloon/standard_atmosphere.py'], [('at_height/at_pressure', 'env/balloon/standard_atmosphere.py')], [], ['Atmosphere.at_height', 'Atmosphere.at_pressure', 'Atmosphere.reset'])
p('C22', 'Sun position, sunrise/sunset and solar power are coherent',
  'Sun elevation, azimuth and flux follow the documented ephemeris for every valid position and every time-zone-aware time (only the instant matters), and invalid positions are refused; the next sunrise and sunset lie in the coming day, on the right side of noon and midnight, and separate day from night by the panel elevation limit. Solar power is never negative, is zero when the sun is below the limit, and is capped and attenuated as documented.',
  ['inputs'], 'every position and time of year and every sun elevation and pressure', 'tests check single dates, mostly at one latitude',
  ['env/balloon/solar.py'], [('solar_calculator', 'env/balloon/solar.py'), ('get_next_sunrise_sunset', 'env/balloon/solar.py'), ('solar_power', 'env/balloon/solar.py')], [], ['solar.solar_calculator', 'solar.get_next_sunrise_sunset', 'solar.solar_power'])
p('C23', 'Physical units convert and combine correctly and refuse nonsense',
  'Distance, velocity, energy and power values convert between their units exactly, add, subtract, scale, divide and compare by their physical value, and combine as distance/time = velocity, velocity x time = distance, power x time = energy, and ratio of like units = number. Operations between unlike units raise an error and never return a value.',
  ['inputs', 'programs'], 'every value and every pair of operand kinds and operators', 'tests sample a few pairs; several operand kinds and comparison errors are missing',
  ['utils/units.py'], [('unit classes', 'utils/units.py')], [], ['utils.units'])
p('C24', 'Geometry and transforms are inverse, monotone and in range',
  'Offsetting a position east and north by a distance gives the point at that displacement on the sphere, and the rescaling, squashing and their undo functions are mutually inverse and monotone, stay in their documented ranges, saturate only where documented, and reject inputs outside the domain of the inverse.',
  ['inputs'], 'every offset, centre and transform input', 'tests sample a few values and do not try the rejected ones',
  ['utils/transforms.py', 'utils/spherical_geometry.py'], [('transforms', 'utils/transforms.py'), ('calculate_latlng_from_offset', 'utils/spherical_geometry.py')], [], ['utils.transforms', 'utils.spherical_geometry'])
# ---------------------------------------------------------------- evaluation, training, metrics
p('C25', 'Evaluation drives the agent by the protocol and accounts exactly',
  'For every seed of a suite, evaluation reseeds the environment with it, runs one episode in evaluation mode until a terminal event or the step limit, feeding each observation and reward to the agent once and in order, and reports that seed with the exact cumulative reward, fraction of observed states within the station radius, terminal cause, final time and, if asked, the flight path. Results appear once per seed in suite order, and the seed list is not modified.',
  ['inputs', 'histories'], 'every suite, step limit, agent and terminal pattern', 'tests mock the environment with one or two fixed patterns',
  ['eval/eval_lib.py'], [('eval_agent', 'eval/eval_lib.py')], [], ['eval_lib.eval_agent', 'eval_lib.EvaluationResult'])
p('C26', 'Sharded evaluation covers every seed once and combines losslessly',
  'For every shard count the shards are consecutive, disjoint and together exactly the suite, with sizes differing by at most one, and each shard evaluates and writes its own seeds; combining the shard files ({model}_{shard}.json) of a model yields the results of exactly that model, each once, sorted by seed, with or without flight paths as asked, never those of another model whose name merely starts the same, and leaves the shard files alone. Encoding results to JSON and reading them back preserves every value.',
  ['inputs', 'configurations'], 'every suite size, shard count and set of result files', 'tests use one shard layout and one model name',
  ['eval/eval.py', 'eval/combine_eval_shards.py', 'eval/suites.py', 'eval/eval_lib.py'], [('shard slicing', 'eval/eval.py'), ('glob of shard files', 'eval/combine_eval_shards.py')], [], ['eval.py', 'combine_eval_shards.py', 'suites.get_eval_suite', 'suites.available_suites'])
p('C27', 'Training loop protocol: every transition delivered once, resumes exactly',
  'Training runs the configured iterations of episodes; in each episode the agent receives the initial observation, then each (reward, observation) in order, then exactly one end-of-episode with the last reward and whether the episode was terminal, never exceeding the step limit. After each iteration a checkpoint is taken; a restart after a crash at any point resumes at the iteration after the newest checkpoint, with metric numbering continuing from there, so no completed iteration is repeated or skipped.',
  ['histories', 'crash_points'], 'every episode-length pattern, iteration count and crash point', 'tests run one or two uninterrupted episodes with mocks',
  ['train_lib.py'], [('run_training_loop', 'train_lib.py')], [], ['train_lib.run_training_loop'])
p('C28', 'Checkpoint store returns what was saved and collects only stale ones',
  'Loading a checkpoint returns exactly what was saved for that iteration; the latest checkpoint is the highest saved iteration, or none; garbage collection after a save removes exactly the checkpoints older than the retention window and never the newest ones, for every iteration number. Files that are not checkpoints are neither removed nor able to break saving, collection or resumption. Resuming uses the latest checkpoint that is complete, however many files a crash left incomplete.',
  ['histories', 'crash_points'], 'every sequence of saves, collections and restarts, any iteration number and any stray file', 'tests use iteration numbers below 1000 in otherwise empty directories',
  ['agents/dopamine_utils.py', 'agents/dqn_agent.py', 'agents/quantile_agent.py'], [('checkpoint naming and clean-up', 'agents/dopamine_utils.py')], [], ['dopamine_utils'])
p('C29', 'Metric collectors record every episode and step as reported',
  'Each collector receives begin, step, end and shutdown notifications exactly once per event in the registered order; the console log counts each action, the pickle files contain per-episode rewards, actions and terminal steps under the right iteration number, and the summary writer receives the episode return and length at the right global step. Nothing from one episode leaks into the next, and numbering continues from the starting episode. A training resumed in the same directory replaces the pickle files of the episodes it repeats and keeps what else was recorded.',
  ['histories'], 'every sequence of episodes, lengths, actions and rewards and every starting episode', 'tests run one or two identical episodes',
  ['metrics/collector_dispatcher.py', 'metrics/console_collector.py', 'metrics/pickle_collector.py', 'metrics/tensorboard_collector.py'], [('dispatcher fan-out', 'metrics/collector_dispatcher.py')], [], ['CollectorDispatcher', 'PickleCollector', 'ConsoleCollector', 'TensorboardCollector'])
# ---------------------------------------------------------------- agents
p('C30', 'MarcoPolo exploration alternates fixed RL and exploration phases',
  'Every episode starts in the reinforcement-learning phase; phases then alternate, four hours of the learner actions (80 steps) and two hours of exploration (40 steps), and whether an episode has exploration phases at all is drawn when it begins, with the configured probability. The exploratory agent is begun once per episode with its initial observation. In the learner phase the learner action is returned unchanged; in exploration every action is valid and comes from the exploratory policy.',
  ['histories'], 'every episode length, action stream and random stream', 'tests step through one phase change',
  ['agents/marco_polo_exploration.py', 'agents/exploration.py'], [('phase timer', 'agents/marco_polo_exploration.py')], [], ['MarcoPoloExploration.begin_episode', 'MarcoPoloExploration.step'])
p('C31', 'Random-walk agent tracks its target pressure with hysteresis',
  'The random-walk agent moves toward its target pressure: it descends when the target is deeper by more than 100 Pa, ascends when it is shallower by more than 100 Pa and stays otherwise. The target is drawn uniformly between 6500 and 11400 Pa when an episode begins and takes a Gaussian step of standard deviation 0.1666 Pa per second of time step (30 Pa) at every step, whatever the observation. The actions are valid for every observation and reproducible from the seed.',
  ['histories', 'inputs'], 'every observation sequence and seed', 'tests check a few single observations',
  ['agents/random_walk_agent.py'], [('target update and action choice', 'agents/random_walk_agent.py')], [], ['RandomWalkAgent.begin_episode', 'RandomWalkAgent.step'])
p('C32', 'Station seeker picks the best-scoring reachable wind level',
  'The station-seeking controller scores each valid wind level by how well its wind leads to the station given distance and confidence, picks the best one and commands ascent, descent or stay to reach it; invalid levels are never chosen and the action depends only on the current observation.',
  ['inputs', 'histories'], 'every observation the simulator can produce', 'tests evaluate two synthetic observations',
  ['agents/station_seeker_agent.py'], [('best altitude search', 'agents/station_seeker_agent.py')], [], ['StationSeekerAgent.begin_episode', 'StationSeekerAgent.step'])
p('C33', 'Learning agents train on the actions they sent and freeze in evaluation',
  'The action stored with each transition is the action the agent returned to the environment, including actions substituted by exploration; transitions are stored only in training mode; in evaluation mode no parameter, replay or training counter changes and exploration never replaces the greedy choice. In training every action is followed by one training step, which changes the parameters and the target network only when the configured periods say so. An agent learns exactly what the wrapped algorithm learns from the same experience with the same horizon, discount and periods, and reports its losses at the configured period. The networks compute what their configuration says (dense layers, rectified; quantiles per action). Saving and reloading a checkpoint restores parameters, optimiser, counters and replay.',
  ['histories', 'configurations'], 'every interleaving of training and evaluation episodes, save and reload', 'tests mock the parent class and check single calls',
  ['agents/quantile_agent.py', 'agents/dqn_agent.py', 'agents/mlp_agent.py'], [('action overwrite for replay', 'agents/quantile_agent.py'), ('set_mode', 'agents/agent.py')], [], ['QuantileAgent', 'DQNAgent', 'MLPAgent'])
p('C34', 'Named agents, models, collectors and environments resolve as documented',
  'Every registered agent name builds the agent it names with the given action count, observation shape and published configuration, where the last binding given counts (agent file, then extra files, then command line); unknown names are rejected. Model files are searched in the documented order (explicit path, package resource, default) and a clear error is raised when none exists. The pretrained agent plays the best action of its model, and fine-tuning starts from its weights. Registering the environment is idempotent and gym.make builds it with the declared spaces.',
  ['configurations'], 'every registered name and every combination of present and missing files', 'tests check a few names with mocks',
  ['utils/run_helpers.py', 'agents/agent_registry.py', 'models/models.py', 'env/gym.py'], [('registries', 'agents/agent_registry.py')], [], ['run_helpers', 'agent_registry', 'models', 'env.gym'])
p('C35', 'Rendering never affects the simulation and shows the current flight',
  'The environment resets its renderer and shows it the initial state once per reset and the resulting state once per step, in order, forwards render calls with the requested mode and returns its result, and behaves identically, in observations and rewards, with, without, or with any renderer. The plotted path is exactly the visited positions since the last reset.',
  ['histories'], 'every sequence of resets, steps and render calls', 'tests check that a mock was called',
  ['env/balloon_env.py', 'env/rendering/matplotlib_renderer.py'], [('renderer hooks in reset and step', 'env/balloon_env.py')], [], ['BalloonEnv.render', 'Renderer'])
# ---------------------------------------------------------------- added while building
p('C36', 'Accessible pressure range and stable float state',
  'The accessible pressure range runs from the pressure at which the balloon floats with an empty ballonet down to the altitude floor, shrunk at both ends to where the floating superpressure keeps the documented margin from zero and from the envelope limit, is ordered, and is refused when no pressure is safe. The stable parameters computed for a start pressure make the balloon neutrally buoyant and thermally balanced there, with the air mass and gas state they report.',
  ['inputs'], 'every latitude, time of day, infrared level, gas inventory, envelope limit and atmosphere in the operating envelope',
  'tests check that a range is produced for one or two balloons, not that its ends are where the balloon can float safely',
  ['env/balloon/pressure_range_builder.py', 'env/balloon/stable_init.py'],
  [('get_pressure_range', 'env/balloon/pressure_range_builder.py'), ('calculate_stable_params_at_pressure', 'env/balloon/stable_init.py')], [],
  ['pressure_range_builder.get_pressure_range', 'stable_init.calculate_stable_params_at_pressure'])
p('C37', 'Generated wind fields are incompressible, well-shaped, fixed by their key',
  'The decoder turns latents into a field of the declared shape (for every field shape, also inside the autoencoder) that is the discrete curl of its linearly enlarged stream functions, so that the flow out of every interior cell of every pressure level and time is zero. The shape reports grid points and sizes that fit each other. The encoder returns mean and log variance of its dense layers on the squashed field; the autoencoder reconstructs the decoded latent, drawn from that law when asked and the mean otherwise, and generation is decoding. A sampled field is the decoded standard normal latent of its key: the same key gives the same field, another key another.',
  ['inputs', 'configurations'], 'every field shape, network size, weights, latents, key and date',
  'tests check shapes for the default configuration and a loss on one batch',
  ['generative/vae.py', 'env/generative_wind_field.py'], [('stream function and its curl', 'generative/vae.py'), ('sample_field', 'env/generative_wind_field.py')], [],
  ['vae.Decoder', 'vae.Encoder', 'vae.WindFieldVAE', 'vae.FieldShape', 'GenerativeWindFieldSampler.sample_field'])
p('C38', 'Wind-field reservoirs never train on evaluation fields',
  'A reservoir keeps exactly the last fields of its data set for evaluation, as many as asked for (none when asked for none), and returns the same ones every time. Training batches have the requested size, hold unaltered fields of the rest of the data set, none twice, each equally likely and in random order, and successive batches differ; more fields than there are cannot be drawn. The batches are determined by the seed and are not affected by evaluation. A data set in files is the concatenation of its shards in order.',
  ['histories', 'inputs'], 'every data set, evaluation size, seed and sequence of training and evaluation batches',
  'tests draw one batch of each kind from one data set',
  ['generative/dataset_wind_field_reservoir.py'], [('get_batch', 'generative/dataset_wind_field_reservoir.py'), ('get_eval_batch', 'generative/dataset_wind_field_reservoir.py')], [],
  ['DatasetWindFieldReservoir.get_batch', 'DatasetWindFieldReservoir.get_eval_batch'])
p('C39', 'Station-keeping columns are those with winds to all sides',
  'A column of winds is judged fit for station keeping exactly when calm lies inside the convex hull of its winds, whatever their order, number and scale (columns whose winds lie on one line have no hull and may be refused). The speed of a field at a point is the length of its wind there and the mean speed is the mean over all points.',
  ['inputs'], 'every column of winds and every wind field', 'tests check two columns',
  ['utils/wind.py'], [('convex hull test', 'utils/wind.py')], [], ['utils.wind.is_station_keeping_winds', 'utils.wind.wind_field_speeds', 'utils.wind.mean_speed_in_wind_field'])
p('C40', 'The environment keeps its contract and uses the parts it is given',
  'Exactly the actions 0, 1 and 2 (python or numpy integers) are taken, meaning down, stay and up; anything else is refused and leaves the flight as it was. step answers (observation, reward, terminal, info) where the observation is what the feature constructor makes after being told the new state, the reward is the given reward function applied to the new state, terminal and info describe the new state; reset answers the first observation, with the info only when asked. Each flight gets a feature constructor of its own, made from the winds and air of that flight and told every state of it exactly once, beginning with the first. A given arena, reward function, feature constructor or wind field is what is used; the wind field is made once. Spaces and reward range describe what is accepted and produced (three actions, the feature constructor\'s space, rewards of the default function within 0 and 1; the default observations are 1099 finite float32 numbers inside the space). seed, render without a renderer, close and use as a context manager leave the flight alone, and exceptions pass through.',
  ['inputs', 'histories'], 'every history of calls and every choice of parts', 'tests use one or two parts and short histories',
  ['env/balloon_env.py', 'env/balloon_arena.py'], [('BalloonEnv.step / reset', 'env/balloon_env.py'), ('feature construction', 'env/balloon_arena.py')], [], ['BalloonEnv.step', 'BalloonEnv.reset', 'BalloonArena.reset', 'BalloonArena.step'])
p('C41', 'The command-line programs run the experiment their flags describe',
  'The training program builds exactly one agent of the given name (with the environment\'s actions and observation shape, and the last gin binding given) and one environment of the given name with the given wind field and renderer, trains it in base_dir/agent/run_number for the given iterations, episodes and step limit, shows it every render_period steps, feeds the collectors named, and saves the final picture when there is one. Started again, finished or not, it continues after the newest checkpoint of that same agent and run and touches no other run. The evaluation program likewise builds agent and environment, loads the given checkpoint, plays each seed of the given suite or shard once in evaluation mode, saves nothing but one result file, whose name tells suite, agent, checkpoint and shard unless overridden. Omitted flags take their documented defaults; unknown agents, wind fields, renderers, suites, environments and flags are refused before anything is played or written.',
  ['inputs', 'configurations', 'histories'], 'every command line and every sequence of training and evaluation commands below one base directory',
  'no test runs either program; their parts are tested with mocks, one at a time',
  ['train.py', 'eval/eval.py', 'utils/run_helpers.py', 'train_lib.py'], [('main of the training program', 'train.py'), ('main and write_result of the evaluation program', 'eval/eval.py')], [],
  ['balloon_learning_environment.train', 'balloon_learning_environment.eval.eval'])
if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + '\n')
  print(len(P), 'properties')
