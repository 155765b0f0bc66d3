"""Source of properties.jsonl (run: python3 tools/props_src.py)."""
import json, os
M, IO, DI, PH, MT, PT, UN, CN, CLI, DT = (
    'metsim/metsim.py', 'metsim/io.py', 'metsim/disaggregate.py',
    'metsim/physics.py', 'metsim/methods/mtclim.py',
    'metsim/methods/passthrough.py', 'metsim/units.py', 'metsim/constants.py',
    'metsim/cli/ms.py', 'metsim/datetime.py')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    'mechanism': [dict(name=a, where=b) for a, b in mech],
                    'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Sub-daily precipitation conserves the daily totals',
     'For every cell, the sub-daily precipitation written sums to the input daily precipitation: over each calendar day '
     'when times are local, and over the whole record when the UTC shift is on. This holds for the uniform, triangle and '
     'mix distributions and for every accepted time step.',
     ['inputs', 'configurations'], 'all daily precipitation series, storm peaks and durations, temperatures, time steps, distribution types, UTC on or off',
     'The tests check uniform precipitation of one domain at two time steps through a loose error tolerance; triangle and mix are only run, never compared with the daily totals.',
     [DI, M], [('precipitation disaggregation at one-minute resolution, then block sums', DI + ':prec')],
     observe=['precipitation variable of the output file'])
prop('C02', 'Sub-daily shortwave carries the same energy as daily output',
     'With local times, the mean over a day of the sub-daily shortwave of a cell equals the shortwave the daily time step '
     'writes for the same inputs. With the UTC shift on, the radiation and the weights that spread it over the day stay aligned with each other.',
     ['inputs', 'configurations'], 'all inputs, time steps, both methods, both conventions for supplied shortwave',
     'Tests compare one domain at 60 and 180 minutes within a wide tolerance and only the domain mean for supplied shortwave; they never compare daily with sub-daily output.',
     [DI, M, PH], [('spreading daily radiation by solar geometry fractions', DI + ':shortwave'),
                   ('daylight to daily average', M + ':wrap_run_cell'), ('fractions normalised per day', PH + ':solar_geom')],
     observe=['shortwave variable of the output file'])
prop('C03', 'Passthrough uses supplied variables as supplied',
     'With the passthrough method, a daily meteorological variable that the forcing supplies (shortwave, vapor pressure, cloud fraction, '
     'potential evaporation) is never recomputed or altered before it is used: daily output reproduces the supplied series, and the daily means of sub-daily '
     'shortwave and longwave equal the supplied daily values. Only variables that are absent are estimated, and a run without supplied shortwave is refused.',
     ['inputs', 'configurations'], 'all combinations of supplied and absent variables, daily and sub-daily steps',
     'One test supplies one combination at one time step and compares domain-wide means.',
     [PT, M, DI], [('estimate only what is absent', PT + ':run'), ('longwave rescaling', DI + ':longwave')],
     observe=['output file'])
prop('C04', 'Humidity never exceeds saturation',
     'At every sub-daily step relative humidity is at most 100 percent, and vapor pressure is at most the saturation vapor pressure '
     'at that step\'s air temperature, including the steps at both ends of the record where values are extended.',
     ['inputs', 'configurations'], 'all temperature and vapor pressure inputs, all steps of the record',
     'Tests only compare overall error norms for one domain; the range assertions are commented out and the record ends are not looked at.',
     [DI], [('saturation cap', DI + ':vapor_pressure'), ('clamp', DI + ':relative_humidity')], observe=['output file'])
prop('C05', 'Physical quantities stay in their physical range',
     'For valid inputs (finite, non-negative precipitation, maximum temperature not below minimum, fractions in the documented ranges) daylength '
     'is within 0 to 86400 s, potential and estimated shortwave are never negative, cloud fraction estimated for the default cloud scheme is within 0 to 1, '
     'sub-daily precipitation is never negative, and no division by zero can occur in the solar geometry of any latitude.',
     ['inputs', 'configurations'], 'all latitudes, elevations, days and valid meteorological inputs',
     'Tests use one mid-latitude domain; polar days, nights and the transition days are never exercised.',
     [PH, MT, DI], [('clamping of hour angle and daylength', PH + ':solar_geom'), ('floor on transmittance', MT + ':shortwave'), ('cloud fraction', MT + ':tskc')],
     observe=['output file', 'solar_geom result'])
prop('C06', 'Unit conversions are physically right',
     'For every output variable and every unit string it accepts, the value written is the default-unit value converted by the true physical '
     'relation between the two units, for every time step; the variables and units accepted include all documented ones.',
     ['inputs', 'configurations'], 'all variables, accepted units, values and time steps',
     'One test converts two variables at one time step; every other converter is never executed.',
     [UN, M], [('converter table', UN + ':converters')], observe=['output file values'])
prop('C07', 'Unit labels match the values written',
     'In every output file, the units attribute of a variable is the unit its values were converted to: the requested unit when it is supported, and '
     'the default unit when none is requested or the request is unsupported, regardless of what earlier runs in the same process asked for. The time attributes say UTC exactly when the UTC shift is on.',
     ['configurations', 'histories'], 'all requested units, supported or not, and all sequences of runs',
     'The tests look at converted values for two variables but never at the unit attributes, and never after another run.',
     [M], [('unit attribute selection', M + ':MetSim._update_unit_attrs'), ('attribute writing', M + ':MetSim.setup_netcdf_output')],
     state=[('attrs', 'variable attributes', M)], observe=['attributes in the output file'])
prop('C08', 'Every accepted output variable can be produced',
     'Every variable that validation accepts for the daily or for a sub-daily time step (wind only when wind is an input) is computed for that time step and has a unit '
     'conversion and metadata, so an accepted request never fails later; every documented output variable is accepted and any other name is refused before output is created.',
     ['configurations'], 'all output variable names, both kinds of time step, both methods',
     'Tests request a fixed handful of variables; the daily list is never run at all.',
     [M, DI, MT, PT, UN], [('accepted lists', M + ':MetSim._validate_setup'), ('assigned columns', DI + ':disaggregate'), ('converter table', UN + ':converters')],
     observe=['exceptions raised by constructing and running'])
prop('C09', 'Documented options are accepted in any case, bad ones refused',
     'Every documented value of the longwave, cloud, precipitation and precision options is accepted, irrespective of capitalization where documented, and selects an implemented scheme; '
     'a longwave, cloud or precision value outside the documented set is refused before any output file is created. A run without forcing, forcing variables, output directory or output variables is refused the same way.',
     ['configurations'], 'all option values',
     'Tests use only default option values.',
     [M, DI], [('option validation', M + ':MetSim._validate_setup'), ('scheme tables', DI + ':longwave')], observe=['exceptions', 'created files'])
prop('C10', 'Only time steps that divide the day are accepted',
     'A run is accepted exactly when its time step is a positive number of minutes that divides 1440 and is at most 360, or is 1440; given as text or number. '
     'Any other step is refused before an output file is created.',
     ['configurations'], 'all integer time steps, as numbers or text',
     'Tests use four valid steps and no invalid one.',
     [M], [('time step validation', M + ':MetSim._validate_setup')], observe=['exceptions'])
prop('C11', 'Chunks tile the domain exactly',
     'For any chunk sizes, the pieces a run is split into cover every cell of the domain exactly once, also when sizes do not divide the domain, exceed it, or are given for only some dimensions or none.',
     ['configurations', 'inputs'], 'all domain sizes and chunk sizes',
     'Tests use chunk sizes of 10 on a 4 by 5 domain and 3 on 9 by 9: no remainder, one chunk or equal chunks.',
     [M], [('domain slicing', M + ':chunk_domain'), ('slices', M + ':MetSim.slices')], observe=['coverage of the output file'])
prop('C12', 'Execution settings do not change results',
     'The values written for a cell do not depend on the chunking, the scheduler, the number of workers, verbosity, the output directory or prefix, the output names, how output is split into files, or which other variables are requested.',
     ['configurations', 'schedules'], 'all execution settings',
     'Every test fixes one scheduler and one chunking; results of different settings are never compared.',
     [M, DI], [('per-cell computation', M + ':MetSim.run_slice')], observe=['output file values'])
prop('C13', 'Each cell depends only on its own data',
     'The values written for a cell are a function of the forcing, state and domain data at that cell alone and of the settings: never of data of other cells, nor of which cells were processed before it in the same chunk.',
     ['inputs', 'schedules', 'histories'], 'all domains, masks, and processing orders',
     'Tests compare one cell of one domain with a stored result in one order.',
     [M, DI], [('per-cell selection and parameters', M + ':wrap_run_cell')], state=[('params', 'per-slice parameter dictionary reused across cells', M)], observe=['output file values'])
prop('C14', 'Runs in one process are independent',
     'The result of a run depends only on the configuration it is given and the defaults: reading a configuration, constructing or running a model leaves the package defaults and tables as they were, '
     'so that earlier runs in the same process influence neither values, variable names nor metadata of later ones.',
     ['histories'], 'all sequences of configurations read and runs made in one process',
     'Each test happens to overwrite the settings that leak; none compares a run after another with the same run in a fresh process.',
     [M, IO], [('defaults', M + ':MetSim.params'), ('metadata tables', M + ':attrs')], state=[('params', 'defaults', M), ('attrs', 'metadata', M), ('available_outputs', 'metadata', M)], observe=['module tables', 'output file'])
prop('C15', 'Writers to a shared output file are serialized',
     'Every write that a chunk makes to an output file happens while holding the one lock that all chunks share for that file, and the file is opened and closed inside the lock; files are created only before any chunk starts, and a chunk never truncates a file.',
     ['schedules'], 'all interleavings of chunk workers',
     'Tests use one chunk or a threaded run that rarely interleaves.',
     [M], [('locks per file', M + ':MetSim.run'), ('locked write', M + ':MetSim.write_chunk')], state=[('write_locks', 'lock per output file', M)], observe=['file operations'])
prop('C16', 'Exactly the masked-in cells are computed',
     'A cell is computed exactly when its mask value is positive; every other cell (zero, negative or NaN) is written as missing in every variable. The location a result is written to is the location its inputs were read from.',
     ['inputs'], 'all masks and domain shapes, including domains with differently named or ordered dimensions',
     'Tests never look at cells outside the mask nor at more than one location.',
     [M], [('mask loop', M + ':MetSim.run_slice'), ('chunk write', M + ':MetSim.write_chunk')], observe=['output file values'])
prop('C17', 'Output time stamps cover the period exactly',
     'Output time starts at the first forcing day (one step later when period-ending is on), advances by the time step and ends with the last step of the last day (again one step later when period-ending), '
     'and the values stored, the time coordinate and the file split all use that same sequence, which every chunk and the file creation compute alike.',
     ['configurations', 'inputs'], 'all periods, time steps, period conventions and output frequencies',
     'One test compares two time vectors; values against times, daily steps with period-ending and file splits are never checked.',
     [M, DI, DT], [('output times', M + ':MetSim._get_output_times'), ('cell times', M + ':wrap_run_cell')], observe=['time coordinate of the output file'])
prop('C18', 'UTC shift is consistent across variables',
     'With the UTC shift off, longitude influences no output. With it on, precipitation, wind, cloud fraction, shortwave and the times of temperature extremes are all shifted in the same direction by the solar time '
     'difference of the cell\'s longitude taken in [-180, 180] degrees.',
     ['configurations', 'inputs'], 'all longitudes and both settings',
     'Only examples run with the shift, and their output is not checked.',
     [DI], [('shift by longitude', DI + ':prec'), ('longitude wrap', DI + ':disaggregate')], observe=['output file values'])
prop('C19', 'Settings mean the same as text, number or date',
     'A setting given as text in an INI file has the same effect as the same value given natively in YAML or a dictionary: numeric options are converted before they are computed with, start and stop may be dates or text, '
     'and a boolean option is on only for the text true in any capitalization.',
     ['configurations'], 'all options in all three configuration forms',
     'Example files leave nearly all numeric options at their defaults, so conversions are not exercised.',
     [IO, M], [('numeric conversion', M + ':MetSim.run_slice'), ('boolean decoding', IO + ':read_ini_config'), ('date decoding', M + ':MetSim._validate_force_times')], observe=['exceptions', 'output file values'])
prop('C20', 'A failing chunk makes the run fail',
     'An error while reading inputs, computing or writing any chunk surfaces as an exception of the run: no handler between the computation of a cell and the caller discards it, and the run evaluates every chunk before it returns. '
     'A forcing file of a cell in the domain that cannot be decoded is reported, not silently turned into missing data.',
     ['fault_sequences', 'inputs'], 'all errors at all points of the pipeline',
     'No test injects an error.',
     [M, IO], [('evaluation of all chunks', M + ':MetSim.run'), ('narrow exception handlers', IO + ':process_vic')], observe=['exception of the run'])
prop('C21', 'Maximum below minimum temperature is refused',
     'If on any day of the run at any cell of a chunk the maximum temperature is below the minimum temperature, processing of that chunk raises an error before any of its values is written, whatever the method, time step or source of the data.',
     ['inputs', 'configurations'], 'all forcings, including constant ones',
     'No test supplies inconsistent temperatures.',
     [M], [('check', M + ':MetSim._aggregate_state')], observe=['exception', 'writes'])
prop('C22', 'Seasonal windows join state and forcing without gaps',
     'The running windows used for estimation (90-day precipitation, scaled to a year, and 30-day temperature range) for any simulated day consist of exactly that day and the days before it, taken from the state for days before the start and from the forcing after; '
     'the state covers exactly the 90 days that end the day before the start.',
     ['inputs'], 'all periods, states and forcings',
     'Tests compare final variables for one period at wide tolerance.',
     [M], [('window aggregation', M + ':MetSim._aggregate_state'), ('state period', M + ':MetSim._validate_force_times')], observe=['estimated variables'])
prop('C23', 'Every day of the year has solar geometry',
     'Solar geometry is defined for all 366 days of the year, with the 366th day like the 365th, and each simulated day uses the entry of its own day of the year, December 31 of leap years included, so no day reads outside the tables or reads an unset entry.',
     ['inputs'], 'all dates',
     'No test covers day 366.',
     [PH, M, DI], [('tables', PH + ':solar_geom'), ('lookups', M + ':wrap_run_cell'), ('day slices', DI + ':shortwave')], observe=['output values on day 366', 'exceptions'])
prop('C24', 'Text and binary forcing decode to the declared variables',
     'Reading a binary forcing file assigns the consecutive 16-bit values cyclically to the declared variables in their declared order, each divided by its scale and read as signed or unsigned as declared, for any number of variables and exactly as many records as days; '
     'a text file assigns columns to variables in the declared order. Each file\'s data goes to the cell named by the latitude and longitude in its file name.',
     ['inputs', 'configurations'], 'all variable counts, orders, scales and record lengths',
     'All test files have exactly four variables.',
     [IO], [('binary decoding', IO + ':read_binary'), ('text decoding', IO + ':read_ascii'), ('placement', IO + ':process_vic')], observe=['forcing data in the model'])
prop('C25', 'Variable mappings take the declared direction',
     'The forcing, state and domain sections of a configuration map model names to names in the data, in INI and YAML alike: a model variable takes its data from exactly the input variable declared for it, only declared variables are read, '
     'and data are matched to the domain by coordinate and restricted to the simulated period.',
     ['configurations', 'inputs'], 'all mappings',
     'The example mappings are mostly identities.',
     [IO], [('mapping inversion', IO + ':read_ini_config'), ('selection and renaming', IO + ':read_netcdf')], observe=['forcing data in the model'])
prop('C26', 'Each longwave scheme computes its published formula',
     'For each documented longwave and cloud option, sub-daily longwave is the Stefan-Boltzmann flux at air temperature in kelvin times the emissivity of the named published scheme evaluated with vapor pressure in hPa, combined with cloud fraction by the named cloud scheme; default is the TVA scheme.',
     ['inputs', 'configurations'], 'all option combinations and all inputs',
     'Only the default pair of options is executed by tests.',
     [DI], [('scheme tables', DI + ':longwave')], observe=['longwave output'])
prop('C27', 'Daily estimates follow the MTCLIM equations',
     'Daylight temperature, cloud transmittance with its rain correction, cloud fraction, dew point, vapor pressure, shortwave and potential evaporation are the published MTCLIM functions of the daily inputs and parameters, '
     'and the reported vapor pressure, shortwave and potential evaporation belong to the reported (converged) dew point.',
     ['inputs', 'configurations'], 'all inputs and parameter values',
     'Tests compare a downstream result for one domain and default parameters at three percent tolerance.',
     [MT, PH], [('estimation functions', MT + ':run'), ('evaporation', PH + ':calc_pet')], observe=['daily output'])
prop('C28', 'Humidity and pressure follow their definitions',
     'Saturation vapor pressure (with its correction below freezing), sub-daily air pressure, specific and relative humidity are their published functions of temperature, elevation and vapor pressure, with all pressures combined in the same unit.',
     ['inputs'], 'all temperatures, elevations and humidities',
     'Tests use wide tolerances and temperate data.',
     [PH, DI], [('saturation', PH + ':svp'), ('humidity', DI + ':specific_humidity')], observe=['output file values'])
prop('C29', 'Sub-daily temperature passes through the daily extremes',
     'Sub-daily temperature interpolates, without overshoot, between each day\'s minimum at sunrise and its maximum at the configured fraction of the daylight after sunrise, in day order, extended at the record ends by the neighbouring or repeated day.',
     ['inputs', 'configurations'], 'all temperature series, latitudes and time steps',
     'Tests compare two time steps of one domain at wide tolerance; polar latitudes are never run.',
     [DI], [('extreme times', DI + ':set_min_max_hour'), ('interpolation', DI + ':temp')], observe=['temperature output'])
prop('C30', 'Constant variables take precedence everywhere',
     'A variable listed as constant has exactly that value at every cell and time of the forcing, overriding forcing data of the same name, for every forcing format and before the data are checked or used.',
     ['configurations', 'inputs'], 'all constant settings and forcing formats',
     'Tests run constant examples but never look at the values.',
     [M], [('constants', M + ':MetSim.met_data')], observe=['forcing in the model'])
prop('C31', 'Command line options reach what they control',
     'The configuration file argument is the file that is read; number of workers, scheduler and verbosity given on the command line are the ones the run uses, in INI and YAML alike, over any value in the file; a missing configuration file ends the program with a failure status.',
     ['configurations'], 'all command lines',
     'Tests never call the command line entry point.',
     [CLI, IO, M], [('argument parsing', CLI + ':parse'), ('option transfer', IO + ':read_ini_config')], observe=['process exit status', 'scheduler used'])
prop('C32', 'Output files have the declared schema',
     'Every output file has, for each requested variable, one variable with the requested name and precision on the dimensions time and those of the domain mask, coordinates equal to the domain\'s, and time values encoded with the units and calendar the file declares; '
     'no other data variables are created, and missing output directories are created.',
     ['configurations'], 'all output settings and domain shapes',
     'Tests check the presence of two names.',
     [M], [('file setup', M + ':MetSim.setup_netcdf_output')], observe=['output file'])
prop('C33', 'Storm parameters come from the month of each day',
     'For triangle and mix precipitation, each simulated day uses the storm duration and storm peak that the domain gives for that day\'s own calendar month, in all twelve months.',
     ['inputs'], 'all periods and all twelve months',
     'The examples cover January only and their output is not checked.',
     [M], [('monthly parameters', M + ':MetSim.convert_monthly_param')], observe=['precipitation output'])
prop('C34', 'Periods outside the forcing are refused',
     'A start before the first or a stop after the last day of the forcing is refused with an error; start or stop given as forcing take the first and last day of the forcing, and explicit dates are taken as given.',
     ['configurations', 'inputs'], 'all periods',
     'Tests only use periods inside the data.',
     [M], [('period validation', M + ':MetSim._validate_force_times')], observe=['exceptions', 'times'])
prop('C35', 'Precipitation is distributed as the chosen type says',
     'Uniform gives every minute of a day the same share; triangle gives a kernel rising linearly from half a duration before the storm peak to the peak and falling linearly to half a duration after it; '
     'mix uses uniform on exactly the days with minimum temperature below 0 C and triangle on all others. Type names are case-insensitive.',
     ['inputs', 'configurations'], 'all days, durations and peaks',
     'Triangle output is never checked and mix is never run.',
     [DI], [('distribution', DI + ':prec')], observe=['precipitation output'])
prop('C36', 'Solar geometry follows the astronomical formulas',
     'Daylength, potential radiation, transmittance and the sub-daily radiation fractions of every latitude, elevation and day are the documented functions of declination, hour angle and optical air mass; on each day the fractions are proportional to the flat-surface radiation of each half-minute and sum to one.',
     ['inputs'], 'all latitudes, elevations and days',
     'One mid-latitude domain is tested at wide tolerance.',
     [PH], [('solar geometry', PH + ':solar_geom')], observe=['shortwave output'])
prop('C37', 'Dew point iteration terminates',
     'For every valid input the iterative estimation of dew point reaches its tolerance in finitely many iterations.',
     ['inputs'], 'all inputs and tolerances', 'Tests run a handful of cells.',
     [MT], [('iteration', MT + ':run')], observe=['termination'])
prop('C38', 'Estimates agree with reference observations',
     'Sub-daily variables reproduce validated reference series of the algorithm within a few percent.',
     ['inputs'], 'all sites', 'Tests compare a single site.',
     [DI, MT], [('all numerical routines', DI)], observe=['output file values'])
prop('C39', 'Memory stays bounded by the chunk size',
     'Peak memory of a worker is proportional to its chunk, not to the domain.',
     ['configurations'], 'all domains and chunk sizes', 'Tests use tiny domains.',
     [M], [('chunked loading', M + ':MetSim.load_inputs')], observe=['process memory'])
prop('C40', 'Alternative calendars yield the right dates',
     'For a non-standard calendar, generated dates are exactly the dates of that calendar at the requested frequency, free of rounding error over the whole supported range.',
     ['configurations', 'inputs'], 'all calendars and periods', 'Tests use standard calendars.',
     [DT], [('calendar dates', DT + ':date_range')], observe=['time coordinate'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
