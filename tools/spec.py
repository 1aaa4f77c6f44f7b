"""Properties of epfl-herus/demod and how each is decided."""
NOT_APPLICABLE = {}
PROPS = []


def P(**k):
    PROPS.append(k)


BASE = 'demod/simulators/base_simulators.py'

P(id='P01', title='Simulated clock and warm-up of every time-aware simulator',
  statement='After construction with a warm-up time of day or instant, a simulator stands exactly at the requested start instant, having run the number of whole steps between the warm-up moment and the start, with the given step inputs; every later step advances its time by exactly the step size and its step count by one. '
            'Warm-up moments in the future, and start, step-size, warm-up or household-number values of the wrong kind are refused.',
  over=['inputs', 'configurations'],
  text='all start instants (month, year, leap-day borders, time zones), step sizes, warm-up moments and horizons',
  why_tests_cant='the tests use a few start times with 1- and 10-minute steps; off-grid remainders, midnight wrap-around and zones are an unbounded input space',
  files=[BASE], mechanism=[('warm-up step count and remainder', 'TimeAwareSimulator.initialize_starting_state'), ('clock advance', 'TimeAwareSimulator.step / Simulator.step')],
  observe_at=['current_time and current_time_step before/after each step'],
  technique='runtime monitor: per-step clock trace vs calendar arithmetic oracle',
  note='Exploration: every tick of hundreds (quick) to thousands (thorough) of random executions is judged exactly; other inputs are not covered.')

P(id='P02', title='Calendar callbacks fire exactly once per crossing, on the right side',
  statement='For step sizes up to one hour that divide the hour, the before/after "next day" callbacks run exactly once per midnight crossed, the before/after "4 am" callbacks exactly once per 4 am reached, and the before/after "refresh time" callbacks exactly once per step that starts at the refresh time. '
            '"Before" callbacks run ahead of the step while the clock still shows the old time, "after" callbacks behind it, across month, year and leap-day changes, during warm-up too, and the step keeps its arguments and result.',
  over=['inputs', 'configurations', 'histories'], text='all starts, step sizes dividing the hour, decorator combinations and run lengths',
  why_tests_cant='tests cross a handful of midnights inside one month; the property quantifies over all calendar positions and step sizes',
  files=[BASE], mechanism=[('decorators around the step method', 'Callbacks and *_callback functions')],
  observe_at=['order of callbacks and steps in an event log'],
  technique='runtime monitor: event log of callbacks checked offline against the calendar',
  note='Exploration: exact comparison of the complete callback/step log of each execution, with counters for midnights, month and year ends crossed.')

P(id='P03', title='Logger records exactly what the simulator exposed at every step',
  statement='For every attribute list and aggregation choice, the log returned after k steps holds k records: the value exposed at the start and after each step but the last, as a copy, summed over households when aggregation is on, per key for dictionary values and never summed for the current time. '
            'Loggers passed to several simulators do not share data, cleared loggers restart empty, merged loggers keep both contents, and unknown or ambiguous attributes and malformed configurations are refused.',
  over=['inputs', 'configurations', 'histories'], text='all attribute lists, aggregation flags, value kinds, warm-ups and step counts',
  why_tests_cant='tests check a couple of attributes with fixed values; in-place mutated buffers, dictionaries, clears and sharing combine without bound',
  files=[BASE], mechanism=[('visit after each step', 'SimLogger.visit_simulator'), ('last record removed', 'SimLogger.get')],
  observe_at=['SimLogger.get compared with an independent recording'],
  technique='runtime monitor: shadow recording of exposed state vs logger content',
  note='Exploration over random logger configurations; record-by-record comparison with an independent history.')

P(id='P05', title='A group of simulators behaves as the concatenation of its parts',
  statement='Stepping a composed simulator passes to each part exactly its own households of every positional and named input, once and in order; every value getter of the parts is available and returns the parts\' values concatenated in household order, also for a single household and through the log. '
            'The subgroup query marks exactly the households of the parts matching every requested characteristic.',
  over=['inputs', 'configurations', 'histories'], text='all partitions of households, inputs, getters and subgroup queries',
  why_tests_cant='tests compose two or three simulators of equal size; slicing errors need unequal partitions and many calls',
  files=[BASE], mechanism=[('input slicing', 'MultiSimulator.step'), ('getter forwarding', 'MultiSimulator._create_multi_getter'), ('mask', 'MultiSimulator.get_mask_subgroup')],
  observe_at=['arguments seen by the parts', 'getters of the composed simulator'],
  technique='runtime monitor: lockstep twins of the parts, argument log, exact comparison',
  note='Exploration over random partitions, each compared step by step with independently driven twins.')

P(id='P06', title='Categorical sampling follows the given distribution',
  statement='For every discrete distribution given as probabilities or cumulated probabilities, alone or one per sample, the sampler returns one valid category per sample, never one of probability zero, with the stated frequencies and independently between samples, leaving its input untouched. '
            'Rescaling returns an exact distribution proportional to the input when within the tolerance, and rescaling or validation refuses every input outside it, whichever row is affected.',
  over=['inputs'], text='all distributions (zeros, certainties, single category, many categories), shapes, sample numbers and tolerances',
  why_tests_cant='tests draw from a few small distributions; support and frequency are statements about all distributions and draws',
  files=['demod/utils/monte_carlo.py', 'demod/utils/distribution_functions.py'],
  mechanism=[('inverse-CDF draws', 'monte_carlo_from_*'), ('rescale_pdf, rescale_cdf, check_valid_cdf', 'distribution_functions.py')],
  observe_at=['returned samples'],
  technique='runtime monitor: offline checker of recorded draws (support exact, chi-square at 1e-9)',
  note='Support is exact on all observed draws (tens of millions); frequencies are statistical: only distortions above sampling noise are detected.')

P(id='P10', title='The sparse transition store equals the dense matrix it stands for',
  statement='Reading, writing, iterating and periodic time indexing of a sparse transition matrix agree with the dense matrix of the same entries in any entry order, and a save/load cycle preserves every entry, the sizes and the replacement state. '
            'Sampling moves each state only along transitions of positive probability at that time, with the stated frequencies and without altering its input; a state without way out continues as the declared replacement state with a warning, and inputs of unequal length are refused. '
            'Simulators built on a store start from the given distribution, follow its matrices period after period and read the numbers of residents out of the state labels.',
  over=['inputs', 'histories'], text='all sparse matrices, entry orders, edit sequences, times and state vectors',
  why_tests_cant='tests use one small matrix; edits, trailing empty states and unsorted entries are outside what they sample',
  files=['demod/utils/sparse.py'], mechanism=[('coordinate storage', 'SparseTPM.__getitem__/__setitem__'), ('flattened cumulative sampling', 'SparseTPM.sparse_monte_carlo')],
  observe_at=['returned matrices, samples and reloaded stores'],
  technique='runtime monitor: lockstep dense reference model and draw-log checker',
  note='Exploration; read/write/round-trip compared exactly, sampling support exact, frequencies at 1e-9.')

P(id='P11', title='Population sampling gives the exact total in the right proportions',
  statement='For every distribution over groups and every population size, sampling returns one non-negative count per group adding up exactly to the requested size, with no individual in a group of probability zero. '
            'The quota algorithm is deterministic and its cumulated counts stay within one individual of the cumulated shares, the random algorithm follows the shares statistically, and invalid shares or unknown algorithms are refused.',
  over=['inputs'], text='all distributions over groups and population sizes',
  why_tests_cant='tests use one or two distributions; losing an individual depends on roundoff of particular shares',
  files=['demod/simulators/util.py'], mechanism=[('quantile assignment and counting', 'sample_population')],
  observe_at=['returned counts'],
  technique='runtime monitor: conservation and proportionality oracle over recorded samples',
  note='Exploration over random shares and sizes; totals and support exact.')

P(id='P27', title='Statistics estimated from time-use diaries equal direct counting',
  statement='For every set of diaries the extracted transitions and episode durations, the transition matrices (with unvisited states staying in place and the first matrix treated as requested), the duration distributions and the initial-duration distributions equal those obtained by counting the diaries one by one. '
            'Household grouping, state merging and bulb statistics preserve labels and counts, and inputs are left untouched.',
  over=['inputs', 'configurations'], text='all diaries (persons, times, states, constant rows, wrap-around episodes, unused labels) and options',
  why_tests_cant='tests cover a few 3-4 step diaries; several of them do not even run with the installed numpy',
  files=['demod/utils/parse_helpers.py'], mechanism=[('vectorised counting', 'states_to_transitions, states_to_tpms, states_to_tpms_with_durations, get_initial_durations_pdfs'), ('grouping and merging', 'group_hh_transitions, convert_states, bulbs_stats_from_config')],
  observe_at=['returned arrays'],
  technique='runtime monitor: per-person reference counter compared on every execution',
  note='Exploration; exact comparison with an independent per-diary counter.')

P(id='P28', title='State-pattern metrics equal their definitions',
  statement='For every set of state patterns, the cyclic episode durations (per state and overall), the average-state error, the state-duration distribution distance (a state absent on one side included), the edit distance, sparsity and root-mean-square error equal their definitions. '
            'Episode durations of each pattern add up to its length, and the transition-network metrics count distinct nodes, mean edge weight and share of unchanged transitions, with a density between 0 and 1.',
  over=['inputs'], text='all state patterns of any size, values and repetition structure',
  why_tests_cant='tests use hand-made 2x3 arrays; constant patterns, absent states and wrap-around need varied inputs',
  files=['demod/metrics/states.py', 'demod/metrics/errors.py'], mechanism=[('run-length computation', 'get_states_durations'), ('metrics', 'average_state_metric, state_duration_distribution_metric, graph_metrics, levenshtein_edit_distance')],
  observe_at=['returned metrics'],
  technique='runtime monitor: definition-level reference recomputation on every execution',
  note='Exploration; exact comparison. Network density above 1 is a known finding (see DESIGN.md).')

P(id='P29', title='Load-profile metrics equal their definitions',
  statement='For every set of load profiles, energy, diversity, coincidence, coincident demand, load-duration curve, distances and the cumulative distribution of demand changes equal their definitions, for integer or float profiles, one or many households, normalised or not, and default or given thresholds and bins. '
            'The distribution of changes counts every change, ends at one, and bin edges that do not cover the changes are refused; inputs are left untouched.',
  over=['inputs', 'configurations'], text='all load profiles, thresholds, bins and options',
  why_tests_cant='tests use one or two 1x3 profiles without normalisation',
  files=['demod/metrics/loads.py', 'demod/utils/converters.py'], mechanism=[('vectorised metrics', 'demod/metrics/loads.py')],
  observe_at=['returned metrics'],
  technique='runtime monitor: definition-level reference recomputation on every execution',
  note='Exploration; comparison to 1e-6 relative with loop-based definitions.')

ACT = 'demod/simulators/activity_simulators.py'
SPA = 'demod/simulators/sparse_simulators.py'
CRS = 'demod/simulators/crest_simulators.py'
P(id='P07', title='Markov activity chains follow the matrix of the time, day and subgroup',
  statement='At every step of a Markov activity simulator each chain moves only along transitions that have a positive probability in the matrix given for its own time of day, type of day (weekday, weekend, quarter) and subgroup, with the stated frequencies, starting from the distribution given for its own subgroup. '
            'Data are reloaded exactly at the refresh time for the right day, chains are aligned with the clock after any warm-up and any number of days, and times outside the matrices or states of a wrong kind are refused.',
  over=['inputs', 'configurations', 'histories'], text='all matrices, state labels, subgroups mixes, calendar starts, warm-ups and run lengths',
  why_tests_cant='tests check shapes after a few steps; an off-by-one in time, day or subgroup only shows as a wrong matrix being used somewhere along a calendar',
  files=['demod/simulators/base_simulators.py', ACT, SPA, CRS],
  mechanism=[('matrix per time of day', 'TimeAwareSimulator/MarkovChain simulators step'), ('daily reload', 'before_refresh_time_callback users'), ('sparse chains', 'SparseStatesSimulator')],
  observe_at=['states before and after each step'],
  technique='runtime monitor: one-valued (permutation) matrices make every move exactly predictable; support and frequency checks on shipped ones',
  note='Exploration: exact prediction of every move with stand-in matrices unique to time, day type and subgroup; shipped data judged on support.')

P(id='P08', title='Household and resident activity counts are consistent',
  statement='At every step the occupants, active occupants, sleepers and performers of each activity reported for a household are the counts of its residents in the corresponding states: between zero and the number of residents, active occupants never above occupants, occupants plus absent equal to residents. '
            'Residents belong to the household the declared subgroups give them, thermal gains follow from the counts, and the same holds in the log and for every activity simulator.',
  over=['inputs', 'configurations', 'histories'], text='all household mixes, data, calendar starts and run lengths',
  why_tests_cant='tests check shapes on one mix of households; miscounts need particular mixes and states',
  files=[ACT, SPA, CRS], mechanism=[('counts per household', 'get_occupancy, get_active_occupancy, get_performing_activity of the activity simulators')],
  observe_at=['getters of the simulators against the individual states'],
  technique='runtime monitor: conservation oracle at every step against the individual states',
  note='Exploration; exact at every observed step.')

P(id='P09', title='Semi-Markov chains keep each state for its drawn duration',
  statement='In a semi-Markov activity simulator every chain stays in a state exactly for the duration drawn when it entered, then moves along a transition of positive probability for that time and state; durations come from the distribution of that time, state (and previous state, when given), the first ones from the initial distribution. '
            'This holds through warm-up, day changes and data reload, and the log shows the same episodes; durations for other states than those of the chain, or that are no distributions, are refused.',
  over=['inputs', 'configurations', 'histories'], text='all transition and duration distributions, subgroups, starts and run lengths',
  why_tests_cant='tests run a few steps with one matrix and check shapes',
  files=['demod/simulators/base_simulators.py', ACT], mechanism=[('episode countdown', 'SemiMarkov simulators step'), ('durations', 'duration pdfs per time and state')],
  observe_at=['states at each step, assembled in episodes'],
  technique='runtime monitor: episode log vs lockstep reference with one-valued distributions; support and frequency checks otherwise',
  note='Exploration: exact with one-valued distributions, statistical (1e-9) otherwise.')

P(id='P12', title='Subgroup names and resident numbers are unambiguous',
  statement='For every valid subgroup the text form and the dictionary form convert into each other without loss and independently of key order, the number of residents agrees with the household type, and adding the time of a date gives the weekday, weekend or quarter of that date in each requested convention. '
            'Unknown or contradictory values are refused.',
  over=['inputs', 'configurations'], text='all valid subgroup dictionaries, key orders, dates and options',
  why_tests_cant='tests convert a handful of subgroups and dates',
  files=['demod/utils/subgroup_handling.py'], mechanism=[('text form', 'subgroup_string / subgroup_string_to_dict'), ('calendar', 'add_time')],
  observe_at=['returned values'],
  technique='runtime monitor: round-trip and calendar oracle over recorded calls',
  note='Exploration over random subgroups and dates (leap days and all weekdays included).')

APP = 'demod/simulators/appliance_simulators.py'
APU = 'demod/utils/appliances.py'
P(id='P13', title='Appliances draw their own power and only owned ones draw any',
  statement='At every step and in every appliance simulator, an appliance a household does not own draws nothing, an owned one draws its standby power when off and, when in use, its own active power or the value of its real profile at the elapsed time of the use; household totals are the sums. '
            'Ownership is drawn with the probability given for the appliance and the subgroup (or exactly as dictated), getters and log agree, and unknown options or inputs of a wrong size are refused.',
  over=['inputs', 'configurations', 'histories'], text='all appliance sets, ownership tables, household mixes, profile options and occupancy or activity histories',
  why_tests_cant='no test of the repository runs an appliance simulator without downloading data; wrong broadcasting only shows for some mixes',
  files=[APP, APU], mechanism=[('power of each appliance', 'AppliancesSimulator.get_current_power_consumptions / get_power_demand'), ('ownership', 'get_mask_available_appliances / initialization of ownership')],
  observe_at=['power, usage and ownership after each step'],
  technique='runtime monitor: per-appliance power oracle at every step with identifying powers; binomial check of ownership (1e-9)',
  note='Exploration; exact at every observed step, ownership statistical.')

P(id='P14', title='Occupancy-driven appliances run whole cycles',
  statement='In the occupancy-driven appliance simulator a switched-on appliance runs for its cycle length (or the length of its real profile, or of its water use) from the step it starts, including partial steps, and is off afterwards until it starts again; the delay until it may start again and the effect of occupancy follow the type of appliance. '
            'Starts follow the activity profile of the time of day, weekday and number of active occupants.',
  over=['inputs', 'histories'], text='all appliances, profiles, activity profiles, starts, warm-ups and occupancy histories',
  why_tests_cant='no test of the repository runs this simulator; off-by-one cycles need every step to be followed',
  files=[APP], mechanism=[('cycle countdown', 'OccupancyApplianceSimulator.step'), ('switch-on', 'OccupancyApplianceSimulator switch-on probabilities')],
  observe_at=['usage, remaining time and power after each step'],
  technique='runtime monitor: lockstep replay of every appliance from zero/one activity profiles against the observed cycles',
  note='Exploration: every start and cycle predicted exactly with zero/one profiles; partial steps by volume (P16).')

P(id='P15', title='Activity-driven appliances follow activities and stop on time',
  statement='In the activity-driven simulators an appliance is used only when an activity related to it (or the appliance it follows) calls for it, the activity version for as long as somebody performs it, the probabilistic version for its duration and with the starting probability given for its type, weekday and subgroup. '
            'Delays, successors and activity-after starts follow the dataset, and observing or logging never changes the outcome.',
  over=['inputs', 'histories'], text='all appliance sets, relations, probabilities and activity histories',
  why_tests_cant='no test of the repository runs these simulators; the relations interact over several steps',
  files=[APP], mechanism=[('activity use', 'ActivityApplianceSimulator.step'), ('probabilistic use', 'ProbabiliticActivityAppliancesSimulator.step')],
  observe_at=['usage before and after each step, activity inputs'],
  technique='runtime monitor: transition oracle over observed usage with zero/one probabilities, binomial checks (1e-9) otherwise',
  note='Exploration; exact with zero/one probabilities, statistical otherwise.')

P(id='P16', title='Hot water drawn matches the uses of the fixtures',
  statement='Water flows only from owned fixtures in use, at the flow rate of the fixture; the volume of each completed use, partial minutes included, follows the distribution around the mean volume of the fixture, and the heat demand of water equals flow, specific heat and temperature rise. '
            'This holds in every appliance simulator and for the totals of a household.',
  over=['inputs', 'histories'], text='all fixtures, flows, mean volumes, ownership and uses',
  why_tests_cant='no test of the repository observes water; volumes need whole uses to be collected',
  files=[APP], mechanism=[('flow', 'AppliancesSimulator.get_current_water_consumptions / get_dhw_heating_demand'), ('durations', 'switch-on of water fixtures')],
  observe_at=['flow of each fixture after each step'],
  technique='runtime monitor: conservation of volume over collected uses and flow oracle at every step; goodness of fit (1e-9) of volumes',
  note='Exploration; exact flows, statistical volumes.')

P(id='P17', title='Appliance tables resolve to the closest known type',
  statement='For every list of appliance types and every ownership or target table, each appliance gets the entry of its type (and of its number when a household may own several), else of the closest parent type, else the default; mean numbers split and merge back without loss. '
            'Types that cannot be resolved are refused, and unknown numbers count as absent.',
  over=['inputs'], text='all appliance type lists and tables',
  why_tests_cant='tests cover a few hand-written tables',
  files=[APU], mechanism=[('name resolution', 'get_ownership_from_dict / find_closest_type'), ('mean numbers', 'assign_ownership_from_prob1_and_number')],
  observe_at=['returned arrays'],
  technique='runtime monitor: reference resolution recomputed for every recorded call',
  note='Exploration; exact.')

P(id='P18', title='Lighting responds to occupants and darkness with bulb powers',
  statement='Lighting power is zero in an unoccupied house and otherwise follows the model: the Fisher model gives the maximal power at darkness, the minimal one above its threshold and interpolates between per active occupant; in the CREST model each lit bulb draws its own power, may start only with active occupants in the dark (up to the five percent exception), and stays on for its drawn duration. '
            'Start frequencies, durations and bulb installations follow the given distributions, and log and getters agree.',
  over=['inputs', 'configurations', 'histories'], text='all parameters, bulbs, occupancies and irradiance histories',
  why_tests_cant='no test of the repository runs a lighting simulator',
  files=['demod/simulators/lighting_simulators.py'], mechanism=[('Fisher', 'FisherLightingSimulator.step'), ('CREST bulbs', 'CrestLightingSimulator.step')],
  observe_at=['power and bulbs after each step'],
  technique='runtime monitor: bulb-level oracle with powers that identify bulbs; binomial and chi-square checks (1e-9)',
  note='Exploration; exact with predictable parameters, statistical otherwise.')

HEA = 'demod/simulators/heating_simulators.py'
P(id='P19', title='Thermostats and heating controls switch where they should',
  statement='A thermostat switches on at or below its set point minus the deadband, switches off at or above set point plus deadband and otherwise keeps its state; the controls heat water on the hot water thermostat (on demand for combi boilers and external cylinders), heat space only when room and emitter thermostats agree, and run the heater exactly when either is heated. '
            'Set points follow their distributions, or the pattern of the household: presence, or the same hours every day.',
  over=['inputs', 'configurations', 'histories'], text='all deadbands, set points, temperature histories, presence histories and pattern options',
  why_tests_cant='no test of the repository runs a heating simulator; hysteresis depends on the history',
  files=[HEA], mechanism=[('hysteresis', 'Thermostats.step'), ('controls', 'SystemControls.step'), ('patterns', 'VariableThermostatTemperatureSimulator')],
  observe_at=['states, controls and set points after each step'],
  technique='runtime monitor: lockstep reference of every switch on temperature walks through the switching points; frequencies (1e-9)',
  note='Exploration; exact except for the frequencies.')

P(id='P20', title='Heating systems stay within capacity, hot water first',
  statement='The heat delivered for hot water and for space heating never exceeds the demand, the capacity of the system for that use or what hot water leaves of it, is zero when the controls are off, and the total is their sum. '
            'Fuel flow (m3/s), electricity and energy (W) follow from the share of capacity in use and the rates of the system, and are zero for uses it has no capacity for; equipment follows the given probabilities.',
  over=['inputs', 'configurations', 'histories'], text='all systems (with or without each capacity), controls and demands',
  why_tests_cant='no test of the repository runs a heating system',
  files=[HEA], mechanism=[('outputs', 'HeatingSystem.step'), ('fuel and power', 'HeatingSystem.get_fuel_consumptions / get_energy_consumption / get_power_demand')],
  observe_at=['heat outputs, fuel, power after each step'],
  technique='runtime monitor: output and fuel oracle per household with parameters identified by the equipment; frequencies (1e-9)',
  note='Exploration; exact.')

P(id='P21', title='Buildings conserve energy and demand reaches the set points',
  statement='In every step of any size the heat stored in the four nodes of a building changes by exactly what flows in from outside, sun, occupants, appliances, heating and hot water use, each node by its own flows; nothing moves at equilibrium. '
            'The heat demand is such that delivering it brings emitters (or the room) and the cylinder to set point plus deadband in one step; inputs are left untouched and equipment follows the given probabilities.',
  over=['inputs', 'configurations', 'histories'], text='all buildings, step sizes, weather, gains and heat histories',
  why_tests_cant='no test of the repository runs a building; conservation must hold for every combination of flows',
  files=[HEA], mechanism=[('thermal nodes', 'BuildingThermalDynamics.step'), ('demand', 'HeatDemand.step')],
  observe_at=['temperatures before and after each step, demand'],
  technique='runtime monitor: conservation checker over observed temperatures and closed-loop oracle of demand and building',
  note='Exploration; 1e-6 relative.')

P(id='P22', title='Heating modules compose and external components take over',
  statement='The complete heating simulator is the composition of thermostats, controls, demand, system and building at its own step size, and set points, heat outputs and cylinders given from outside replace the simulated ones exactly for the households and steps with a value (NaN keeps the simulated one), per-use outputs over total ones. '
            'A given total is fully used, such households draw no power, reported outputs and demands include what was given, and the arrays given are not modified.',
  over=['inputs', 'configurations', 'histories'], text='all combinations of external inputs per household and step, step sizes and parameters',
  why_tests_cant='no test of the repository runs it; partial overrides have many combinations',
  files=[HEA, 'demod/simulators/util.py'], mechanism=[('composition and overrides', 'FiveModulesHeatingSimulator.step'), ('merging', 'assign_external_array / assign_external_dict')],
  observe_at=['temperatures, states, outputs, demands, power after each step'],
  technique='runtime monitor: lockstep reference model resynchronised on the observed state at every step',
  note='Exploration; 1e-7 relative, ties at switching points follow the observation.')

P(id='P24', title='CREST climate follows sun, clearness chain and temperature model',
  statement='At every minute the irradiance is the clear-sky irradiance of place, date and local time (with daylight saving where used) times a clearness that moves by its transition probabilities from the initial value at midnight; it is never above clear sky nor zero in daylight. '
            'The temperature of each day follows the cumulated irradiance around the seasonal and autoregressive mean, whatever the time of the start.',
  over=['inputs', 'configurations', 'histories'], text='all places, starts, clearness chains and temperature models, several days',
  why_tests_cant='no test runs the climate simulator; errors appear only for some starts and dates',
  files=['demod/simulators/weather_simulators.py'], mechanism=[('irradiance', 'CrestIrradianceSimulator.step'), ('temperature', 'CrestClimateSimulator.on_before_next_day / _step_day')],
  observe_at=['irradiance, clearness and temperature each minute'],
  technique='runtime monitor: solar-geometry oracle per minute, permutation chains, curve reconstruction per day, frequencies (1e-9)',
  note='Exploration; exact irradiance, temperature up to the random daily range.')

P(id='P25', title='Recorded climate is replayed and interpolated at the right time',
  statement='For any start covered by the record, naive (utc) or aware of any time zone, the loader returns the record from the closest point not after the start, replay shows the recorded point of each step, and interpolation gives at every instant of any step size the value of the requested interpolation between the surrounding recorded points. '
            'Starts before or after the record and steps beyond its end are refused, the stored copy equals the parsed one, and each quantity is the one of the source.',
  over=['inputs', 'configurations', 'histories'], text='all records, resolutions, starts, time zones, step sizes and interpolation kinds',
  why_tests_cant='tests use one record, utc or naive starts and few steps',
  files=['demod/simulators/weather_simulators.py', BASE.replace('simulators/base_simulators', 'datasets/base_loader'), 'demod/datasets/RenewablesNinja/loader.py', 'demod/datasets/OpenPowerSystems/loader.py'],
  mechanism=[('slicing', 'ClimateLoader.load_historical_climate_data'), ('replay', 'RealClimate'), ('interpolation', 'RealInterpolatedClimate')],
  observe_at=['arrays returned by the loader, values after each step'],
  technique='runtime monitor: reference record and own interpolation compared at every step, refusals at the ends',
  note='Exploration; exact up to rounding.')

P(id='P23', title='The load simulator composes its components consistently',
  statement='For every number of households, dataset, start and configuration, each minute step moves climate, appliances, lighting and heating exactly once on the same clock and the activity every ten minutes, each fed with the current values of the others; the power demand is the sum of appliances, lighting and heating. '
            'External climate and heat inputs replace the simulated ones for that step, arrive unchanged, and without climate simulator a step lacking them is refused without changing anything, and so is a dataset that can drive no activity or climate.',
  over=['inputs', 'configurations', 'histories'], text='all sizes, starts, options and external inputs per step, shipped datasets',
  why_tests_cant='the test of the load simulator needs downloads and only runs it',
  files=['demod/simulators/load_simulators.py'], mechanism=[('composition', 'LoadSimulator.step'), ('power', 'LoadSimulator.get_power_demand')],
  observe_at=['steps of the components with their arguments, power and demand after each step'],
  technique='runtime monitor: taps on every component record steps and arguments, checked online against the composition rules',
  note='Exploration; exact.')

P(id='P26', title='Stored data is the parsed data: later loads return what was parsed',
  statement='For every kind of data a loader offers and every value, subgroup and option, the first load parses and returns the data, and every later load, from this or another loader object, returns equal data with the same states, times and keys without parsing again. '
            'Different subgroups, versions and options never share data, a failing parser stores nothing, and clearing removes only the parsed data of that dataset and version, after which loading parses again.',
  over=['inputs', 'configurations', 'histories'], text='all data kinds, values, subgroups, versions and orders of loading and clearing',
  why_tests_cant='tests load a few shipped items; equality after storing depends on the values',
  files=['demod/datasets/base_loader.py', 'demod/utils/data_types.py', 'demod/utils/parse_helpers.py'],
  mechanism=[('first load', 'DatasetLoader.save_parsed / _warn_could_not_load_parsed'), ('file names', 'DatasetLoader._get_save_name')],
  observe_at=['values returned by first and later loads, files written, calls of the parsers'],
  technique='runtime monitor: counting parser of a scratch dataset, deep comparison of first and later loads over random histories',
  note='Exploration; exact. One known finding (two kinds of TPM share a file name).')

P(id='P33', title='Crashes, full disks, cut downloads and parallel use never corrupt data',
  statement='Whenever a process loading data ends, is interrupted or meets a full disk, at any point, later loads return exactly the data that parsing gives and store it, and data stored before stays available without parsing again. '
            'Processes that construct loaders and load the same or other data at the same time all succeed with the right data. '
            'A download that fails, is cut or interrupted raises and is done again by the next loader, while a complete one is not repeated; after an update or clearing nothing older is used.',
  over=['crash points', 'schedules', 'faults', 'inputs'], text='all points of a load, all interleavings of several processes, all failures of a download, every kind of data',
  why_tests_cant='tests neither crash nor run loaders in parallel nor download',
  files=['demod/datasets/base_loader.py', 'demod/datasets/tou_loader.py', 'demod/utils/sparse.py', 'demod/utils/files.py', 'demod/datasets/*/loader.py'],
  mechanism=[('writing', 'replaced_file'), ('folders', 'make_dir'), ('downloads', 'the constructors of the loaders')],
  observe_at=['audit events of the file system, data and parsings of later loads, requests to the server, downloaded files'],
  technique='runtime monitor: fault injection at audit events and file-size limits in forked processes, random pauses in parallel ones, failing loopback server',
  note='Exploration; power failures (unsynced data) are out of scope.')

P(id='P34', title='Time-use diaries become the statistics of their subgroup',
  statement='For any survey in the layout of the German time-use survey and any subgroup, the diaries used are those of the complete households (all residents answered, on the same days) of the subgroup. '
            'The residents are at home where the locations at both ends, the travels and the activities say so, and away from home otherwise; each step holds the main activity, or the secondary one where the main one is not informative. '
            'Transition matrices, initial distributions, durations, numbers of daily starts, probabilities and activity profiles are the frequencies counted in these diaries, and distributions sum to one; loading them again gives the same.',
  over=['inputs', 'histories'], text='random surveys and subgroups of every kind, first and repeated loads',
  why_tests_cant='the survey is not available to the tests, which never run the parser',
  files=['demod/datasets/GermanTOU/parser.py', 'demod/datasets/GermanTOU/loader.py', 'demod/datasets/tou_loader.py', 'demod/utils/parse_helpers.py', 'demod/metrics/states.py'],
  mechanism=[('occupancy', 'parser.get_occupancy'), ('subgroups', 'parser.get_mask_subgroup'), ('matrices', 'get_tpms_activity, get_tpm_sparse'), ('statistics', 'GTOU._parse_*')],
  observe_at=['what GTOU loads from generated survey files'],
  technique='runtime monitor: direct counting in generated surveys compared with what the real parser and loader give',
  note='Exploration; the meaning of the survey codes is taken from the present code tables.')

P(id='P30', title='Same seed and inputs give the same simulation; inputs stay unchanged',
  statement='For every simulator, inputs and numpy seed, running again gives the same outputs and random draws at every step, whatever was simulated before, in whichever process and whether the same input objects, copies, arrays that the caller refills for each step, or data kept by the loader are used. '
            'Constructors and steps never modify the subgroups, arrays, dictionaries or loaded data that the caller passed.',
  over=['inputs', 'configurations', 'histories'], text='all simulators, their inputs, seeds, hash seeds and earlier simulations',
  why_tests_cant='tests check single values; hidden state and changed inputs appear only when objects are used again',
  files=['demod/simulators/*.py', 'demod/utils/monte_carlo.py'], mechanism=[('random draws', 'numpy global generator'), ('inputs', 'constructors and step of every simulator')],
  observe_at=['outputs and state of the random generator after each step, inputs before and after'],
  technique='runtime monitor: twin runs compared step by step (outputs and generator state), deep comparison of inputs, other processes',
  note='Exploration; exact. The legacy classes of crest_simulators.py are not run.')

P(id='P04', title='Observing a simulation shows its current state and never changes it',
  statement='For every simulator and history, attaching a logger and calling getters, any of them, in any order, repeatedly or never, leaves all later outputs and random draws unchanged; a getter called again without a step returns the same value, and after a step it shows the state after that step.',
  over=['inputs', 'histories', 'configurations'], text='all simulators, histories and ways of observing them',
  why_tests_cant='tests observe in one fixed way; stale caches and drawing getters depend on who called what before',
  files=['demod/simulators/base_simulators.py', 'demod/simulators/*.py'], mechanism=[('caching', 'cached_getter / Callbacks'), ('logging', 'SimLogger.log')],
  observe_at=['all getters and the state of the random generator in observed and unobserved runs'],
  technique='runtime monitor: observed and unobserved twin runs with the same seed compared at random steps',
  note='Exploration; exact.')

P(id='P31', title='Raw sources are read into exactly the data they contain',
  statement='For every workbook in the layout of the shipped ones, the Germany and Excel-input loaders return the values of all named columns (spaces removed, flags as booleans) and cells of appliances, target switch-ons, buildings, heating systems, lighting and bulbs. '
            'Destatis gives each subgroup the appliance ownership of the column for its household type and size, gender, size, revenue or year, with missing figures as zero; sizes outside one to five and negative revenues are refused. '
            'Tracebase profiles are the traces interpolated every second and averaged over the step size, the switched-on ones cropped to the first and last load above 6 W. '
            'FfE and example data are those of their files; German data are those of their sources; the populations and German demand temperatures are those published.',
  over=['inputs', 'configurations'], text='all contents of the sources in their documented layouts, all subgroups, versions and step sizes',
  why_tests_cant='tests read the shipped files only, and check little of what they contain',
  files=['demod/datasets/Germany/loader.py', 'demod/datasets/ExcellInputFile/loader.py', 'demod/datasets/DESTATIS/loader.py', 'demod/datasets/tracebase/loader.py',
         'demod/datasets/FfE_Open_Data/__init__.py', 'demod/datasets/ExampleData/example_loader.py', 'demod/utils/parse_helpers.py'],
  mechanism=[('workbooks', 'InputFileLoader.load_* / GermanDataHerus._parse_*'), ('ownership', 'Destatis._parse_appliance_ownership_dict'), ('traces', 'Tracebase._parse_real_profiles_dict'),
             ('profiles', 'FfE_DataLoader / ExampleLoader')],
  observe_at=['what the load methods return, first and stored'],
  technique='runtime monitor: generated sources of random contents read by the real loaders, cell-by-cell comparison with an independent reading',
  note='Exploration; exact. CREST workbooks are judged by P32, the German time-use survey by P34; the American one is not judged.')

P(id='P32', title='The CREST workbook is read into exactly the data it contains',
  statement='For every workbook in the layout of the CREST demand model 2.2 the loader returns its household-size shares; for each household size and kind of day its transition matrices (rows rescaled to one, empty rows staying in their state, each matrix leading to its own time), '
            'state labels and starting probabilities; its activity profiles by number of active occupants; its appliances and water fixtures with their numbered ownership; its clearness matrix, bulbs, lighting parameters, heating systems, demand temperatures and buildings. '
            'The shipped data written to such a workbook come back. What is stored is what was read, and subgroups, versions and populations that CREST does not have are refused.',
  over=['inputs', 'configurations'], text='all contents of a CREST workbook, all household sizes, days and supported versions',
  why_tests_cant='the workbook is not in the repository, so tests only use the stored data',
  files=['demod/datasets/CREST/loader.py', 'demod/datasets/CREST/utils.py', 'demod/utils/parse_helpers.py', 'demod/datasets/CREST/parsed_data'],
  mechanism=[('occupancy', 'Crest.load_tpm / _parse_tpm'), ('appliances', 'Crest._parse_appliance_dict'), ('heating', 'Crest._parse_heating_system_dict / _parse_thermostat_dict / _parse_buildings_dict'),
             ('climate and light', 'Crest._parse_clearness_tpms / _parse_crest_lighting / _parse_bulbs_config')],
  observe_at=['what the load methods return, first and stored'],
  technique='runtime monitor: generated workbooks with random or the shipped contents read by the real loader, cell-by-cell comparison',
  note='Exploration; exact. The layout is that of the sheets, titles and rows the loader names; the original workbook is not available here.')

P(id='P35', title='Figures and printouts show exactly the data they are given',
  statement='A household plot has one row per activity, the occupancy states on top, and at each time a marker coloured by the number of residents doing the activity, with a legend for all the numbers up to the largest. '
            'The layers of stack plots are, at each time, as high as the consumption of the appliances of a kind, the number of households in a state or the number of residents doing an activity, in the given order, with the given times, step style and options. '
            'Loggers draw and print every attribute they recorded, aggregated or for each household, dictionaries key by key, alone or in a column against the recorded times. '
            'Given axes are drawn on without being shown, otherwise a figure is made and shown or returned. The data stay unchanged.',
  over=['inputs', 'configurations'], text='all data, labels, time axes, options, sets of recorded attributes and ways to aggregate them',
  why_tests_cant='no test looks at a figure',
  files=['demod/utils/plotters.py', BASE],
  mechanism=[('plots', 'plotters.plot_household_activities / plot_appliance_consumptions / plot_stack_states / plot_stacked_activities'), ('loggers', 'SimLogger.plot / plot_column / print')],
  observe_at=['markers, layers, lines, labels, legends and colours of the drawn figures'],
  technique='runtime monitor: artists read back from the real figures and compared with the data',
  note='Exploration; exact at the sampled times. The look of the figures (sizes, fonts, colour cycle) is not judged.')
