"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

DIS, MS, IO, PH, MT, PT = ('metsim/disaggregate.py', 'metsim/metsim.py', 'metsim/io.py',
                          'metsim/physics.py', 'metsim/methods/mtclim.py', 'metsim/methods/passthrough.py')

p('C01', 'Daily precipitation totals survive disaggregation',
  "In local-time output the sub-daily precipitation of every processed cell is finite, never negative, zero on dry days, and sums over each day to that day's input total, whatever the time step, distribution method (uniform, triangle, mix), month, temperature, storm peak time and storm duration. With UTC output the total over the whole record of each cell still equals the input total, and every amount appears at its local time shifted by the longitude.",
  ['inputs', 'configurations'], 'all forcings, all dividing time steps 1..360 min, all methods, peak 0..1440 min and duration 1..1440 min per month, all longitudes',
  'The tests compare one cell of one basin with a stored series at NRMSE 0.03-0.2 and look at means; a lost or duplicated fraction of a storm at the day edge, for one month, longitude or step, stays below that.',
  [DIS, MS], [('rescaling of the hyetograph to the daily total, minute-resolution roll and re-binning', DIS + ':prec')],
  ['precipitation variable of the output files'])
p('C02', 'Precipitation is spread over the day as the chosen method says',
  "Uniform: every time step of a local day receives the same amount; triangle: the day's rain falls only inside the window of the storm duration centred on the peak time, both as the domain gives them for that cell and calendar month, rising linearly to the peak and falling linearly after it (an isosceles triangle wherever the window lies within the day). Mix: uniform on days whose minimum temperature is below 0 C, triangle on all others.",
  ['inputs', 'configurations'], 'all cells, months (records that cross months and years), peak times, durations, temperatures around 0 C, time steps',
  'No test looks at where in the day the rain falls; the only triangle runs assert that output exists.',
  [DIS, MS], [('triangle/uniform/mix weights', DIS + ':prec'), ('monthly parameter lookup', MS + ':convert_monthly_param')],
  ['precipitation variable of the output files'])
p('C03', 'Sub-daily shortwave keeps daily energy and follows the sun',
  "In local-time output the mean of the sub-daily shortwave radiation over each day equals that day's daily-mean shortwave (the value the daily output reports for the same inputs), for every time step. Radiation is finite, never negative, zero in every step during which the sun is below the horizon for the cell's latitude and day of year, symmetric about local noon, and within a day proportional to the solar elevation (cosine of the zenith angle) integrated over the step.",
  ['inputs', 'configurations'], 'all latitudes including polar day and night, all days of the year including day 366, all time steps, any forcing',
  'Tests only compare whole-record means or an NRMSE on one mid-latitude cell; a shift of one step, a lost day end or a leap-day index error is invisible to them.',
  [DIS, PH], [('daily energy times the fraction of potential radiation per 30 s', DIS + ':shortwave'), ('fraction of radiation per 30 s', PH + ':solar_geom')],
  ['shortwave variable of the sub-daily and daily output files'])
p('C04', 'Solar geometry is astronomically right at every latitude and date',
  "The reported day length is the astronomical one for the cell's latitude and the day of the year (24 h in polar day, 0 in polar night, complementary between mirrored latitudes, within a second of the standard declination formula) and does not depend on longitude, elevation or weather. The daily shortwave estimate never exceeds the radiation arriving at the top of the atmosphere on a flat surface and is zero in polar night. With identical weather, higher ground at the same latitude and date never receives less radiation.",
  ['inputs'], 'all latitudes in [-90, 90], all days of common and leap years, elevations from below sea level to 6000 m',
  'Tests run two small mid-latitude basins; no test reads day length, and none visits the tropics, the southern hemisphere or the poles.',
  [PH, MS], [('solar geometry routine', PH + ':solar_geom'), ('day-of-year lookup', MS + ':wrap_run_cell')],
  ['day length and shortwave variables of the daily output files'])
p('C05', 'Sub-daily temperature follows the daily extremes and never overshoots',
  "Sub-daily air temperature is finite and passes through the daily minimum, placed at sunrise, and the daily maximum, placed at the configured fraction of the daylight period after sunrise (both one time step early by convention), for every day of the record; between two successive extremes it is monotone and stays between them. On the first day it is continued from the last day of the state and on the last day as if that day repeated. Hence no value lies outside the range spanned by the extremes of its own and the adjacent days.",
  ['inputs', 'configurations'], 'all forcings with t_max >= t_min, latitudes, dates, time steps, daylength fractions in (0, 1)',
  'Tests compare one cell with a stored series at NRMSE 0.03 and 0.2; overshoot, swapped knots, wrong first or last day or a time shift on some days pass.',
  [DIS, MS], [('sunrise and maximum times', DIS + ':set_min_max_hour'), ('monotone cubic interpolation of extremes', DIS + ':temp'), ('record ends from state', MS + ':wrap_run_cell')],
  ['temperature variable of the sub-daily output files'])
p('C06', 'Humidity and pressure outputs are physically consistent at every step',
  "At every sub-daily step of every processed cell vapor pressure is positive, never above saturation at the written temperature and, where saturation does not limit it, linear in time between the daily vapor pressures, each placed at that day's time of minimum temperature (constant before the first and after the last). Relative humidity is 100 times the ratio of vapor pressure to saturation, specific humidity the standard function of vapor pressure and air pressure, and air pressure the hydrostatic value for the cell's elevation, temperature and lapse rate, all within their physical ranges. Each variable carries values in the unit its metadata declares.",
  ['inputs', 'configurations'], 'all forcings, elevations, lapse rates, time steps, record lengths from one day, record ends included, with and without UTC output',
  'Tests check these variables only by NRMSE for one humid mountain cell; supersaturation at record ends, for coarse steps or in frost conditions is not looked for.',
  [DIS, PH], [('interpolation limited by saturation', DIS + ':vapor_pressure'), ('relative and specific humidity, pressure', DIS + ':relative_humidity, specific_humidity, pressure'), ('saturation vapor pressure', PH + ':svp')],
  ['vapor_pressure, rel_humid, spec_humid, air_pressure and temp variables of the output files'])
p('C07', 'Longwave follows the selected emissivity and cloud formulas',
  "Sub-daily longwave radiation is positive and equals emissivity times Stefan-Boltzmann blackbody radiation at the written temperature, where the clear-sky emissivity is the published formula of the selected scheme (TVA/default, Anderson, Brutsaert, Satterlund, Idso, Prata) applied to the written vapor pressure and temperature, corrected for the written cloud fraction by the selected cloud scheme. With otherwise equal values more cloud never gives less longwave, and with the Deardorff scheme longwave never exceeds the blackbody value when the clear-sky emissivity does not exceed one.",
  ['inputs', 'configurations'], 'all scheme combinations in any letter case, all temperatures, humidities, cloud fractions, time steps',
  'Only the default scheme is ever run by the tests, on one cell at NRMSE 0.03.',
  [DIS], [('emissivity and cloud tables', DIS + ':longwave')],
  ['longwave, temp, vapor_pressure and tskc variables of the output files'])
p('C08', 'Wind and cloud fraction stay constant through each local day',
  "In local-time output the sub-daily wind speed and cloud fraction equal the daily value of that local day in every time step. With UTC output they are the same series shifted by the cell's longitude, the step that contains a local midnight holding the time-weighted mean of its two days. Wind (or another forcing variable) given as a constant in the configuration is exactly that constant everywhere, even when the forcing also supplies it.",
  ['inputs', 'configurations'], 'all forcings, time steps, longitudes, record lengths, constant overrides of any variable',
  'Tests assert nothing about wind or cloud apart from one NRMSE; the constant-variable examples only assert that output exists.',
  [DIS, MS], [('repeat, roll and average', DIS + ':wind, tskc'), ('constant fields', MS + ':met_data')],
  ['wind and tskc variables of the output files'])
p('C09', 'Daily radiation and humidity solve the published MTCLIM equations',
  "The daily outputs (cloud fraction, shortwave, vapor pressure, potential evaporation) of every processed cell are a simultaneous solution, to the configured dewpoint tolerance, of the published MTCLIM equations (Thornton and Running 1999, Kimball et al. 1997) driven by that cell's temperature, precipitation, elevation, latitude, 90-day seasonal precipitation and 30-day smoothed temperature range including the state, with every tunable coefficient having its documented effect. The iteration always terminates. Cloud fraction from the Deardorff scheme lies in [0, 1], and shortwave, vapor pressure and potential evaporation are never negative.",
  ['inputs', 'configurations'], 'all forcings and states (wet, arid, frozen, polar), coefficients in their documented ranges, tolerances, elevations',
  'No test checks daily output at all (the daily test is commented out); the sub-daily comparison uses one cell and the default coefficients.',
  [MT, PH, MS], [('fixed-point iteration', MT + ':run'), ('seasonal precipitation and smoothed range', MS + ':_aggregate_state'), ('potential evaporation', PH + ':calc_pet')],
  ['tskc, shortwave, vapor_pressure, pet variables of the daily output files'])
p('C10', 'Passthrough keeps every supplied variable and only fills gaps',
  "With the passthrough method, variables supplied in the forcing are honoured: the daily mean of the written shortwave and longwave equals the supplied value at daily and sub-daily steps (supplied shortwave is a full-day average unless daylight averaging is selected), and supplied vapor pressure and cloud fraction replace the estimates. Variables that are not supplied are estimated as the default method would from the same inputs. Feeding a default-method run's own daily results back through passthrough reproduces its sub-daily output.",
  ['inputs', 'configurations'], 'all subsets of suppliable variables, all forcings, daily and sub-daily steps, both averaging conventions',
  'One test compares three whole-record, whole-domain means for one subset at one step.',
  [PT, DIS, MS], [('only-if-missing estimation', PT + ':run'), ('full-day weighting', DIS + ':disaggregate, shortwave'), ('longwave rescaling', DIS + ':longwave')],
  ['output files of passthrough runs'])
p('C11', 'UTC output is the local-time output shifted by longitude',
  "With UTC offset enabled, every variable of a cell is the local-time series of that cell shifted by longitude/360 of a day (earlier for eastern longitudes), so that solar noon falls at 12:00 minus the longitude's share of a day, for every step far enough from the ends of the record for the shifted data to exist. Longitudes that denote the same meridian (for example 240 and -120) give identical output (only the date line itself belongs to either side as written, 180 or -180), longitude 0 gives the local-time output, and cells never influence each other's shift. Without UTC offset, longitude has no effect at all.",
  ['inputs', 'configurations'], 'all longitudes in [-180, 360], all time steps, all variables, records crossing years',
  'The UTC examples only assert that output exists.',
  [DIS], [('minute and 30 s rolls and knot shifts', DIS + ':prec, wind, tskc, shortwave, set_min_max_hour'), ('longitude normalisation', DIS + ':disaggregate')],
  ['all variables of the output files with and without UTC offset'])
p('C12', 'Output covers every time step exactly once, however it is split',
  "The union of the time axes of a run's output files is exactly the regular series from the start of the first day to the last step of the last day at the configured time step (shifted by one step when period-ending), with no gap, repetition or out-of-range stamp, in every supported calendar. Splitting the output by any frequency changes neither times nor values: joined in order, the files equal the unsplit output bit for bit, and period-ending output holds the same values as period-beginning output one step later. Every processed cell has a finite value at every step.",
  ['configurations', 'inputs'], 'all dividing time steps, output frequencies (hours to years), start dates, record lengths from one day, period conventions, calendars',
  'Only unsplit output is ever run by the tests, and only one comparison of period-ending time vectors at one step exists.',
  [MS, 'metsim/datetime.py'], [('time grouping and file naming', MS + ':_get_output_times, _get_output_filename'), ('time slice written per file', MS + ':write_chunk'), ('calendar aware ranges', 'metsim/datetime.py:date_range')],
  ['names, time axes and values of all output files'])
p('C13', 'Units, names and metadata in the files are those requested',
  "Every requested variable is written once under the requested name, in the requested precision, and its values are those of the default unit converted exactly to the requested unit, at every time step; the declared units attribute names the unit the values are in. An unknown unit falls back to the default with values and attribute both in the default unit. Renaming or converting one variable changes no other variable, and coordinates and mask-shaped dimensions are copied unchanged from the domain.",
  ['configurations', 'inputs'], 'all variables, all their supported units, arbitrary names, both precisions, several variables at once, all time steps',
  'One test compares the means of two converted variables at one time step; attributes, other units, names used together and fallbacks are not checked.',
  ['metsim/units.py', MS], [('conversion table', 'metsim/units.py'), ('unit validation and attribute writing', MS + ':_update_unit_attrs, setup_netcdf_output')],
  ['variables, attributes and coordinates of the output files'])
p('C14', 'Cells are independent and the mask decides which are computed',
  "A cell is computed exactly when its mask value is positive; all others (0, NaN, negative) hold only missing values, at every step of every variable. The output of a cell depends only on that cell's own latitude, longitude, elevation, forcing, state and monthly parameters: changing other cells, unmasking or masking them, reordering, transposing or flattening the grid (lat/lon, curvilinear or a single list of units), or selecting a sub-domain leaves its values bit-identical at its own location.",
  ['inputs', 'configurations'], 'all masks, grid shapes and orders, dimension names and layouts, neighbour data',
  'Tests use fixed grids and look at one cell; a shift to a neighbour or a row/column swap on some shapes passes.',
  [MS, IO], [('loop over positive mask cells', MS + ':run_slice'), ('location indexed writes', MS + ':run_slice, write_chunk')],
  ['all variables of the output files'])
p('C15', 'Chunking, scheduler and worker count never change the output',
  "For any division of the domain into chunks (including chunks that do not divide it, exceed it, or name only some dimensions), any supported scheduler (serial, threads, processes, distributed) and any number of workers, under any interleaving of the workers, the run completes without crash or deadlock and its output files are identical in every value to the serial unchunked run. Every processed cell is written, none is written with another cell's data, and no two workers are ever inside the output file or the non-thread-safe file library at once.",
  ['schedules', 'configurations'], 'all chunk sizes per dimension, schedulers, 1..8 workers, worker interleavings, split output files',
  'All tests run with one worker in one thread; concurrency is never exercised.',
  [MS], [('domain decomposition', MS + ':chunk_domain, slices'), ('write locks', MS + ':run, write_chunk'), ('worker body', MS + ':wrap_run_slice')],
  ['output files, process exit, file open/close events', 'netCDF4.Dataset open/close'],
  [('write locks', 'one lock per output file plus a library lock, passed to the workers', MS + ':run')])
p('C16', 'A run depends only on its own configuration, not on earlier runs',
  "The output files of a run, values and metadata alike (creation history aside), are the same whether it is the first thing a process does or follows, or is interleaved with, the construction, run or failure of any other simulations in the same process with different settings. A setting given to one simulation object never becomes visible in another, and reading one configuration never alters what a later one means. Repeating a run gives identical files.",
  ['histories'], 'all sequences and interleavings of constructing, running and failing simulations with differing options, units, names, constants, state and config files',
  'Every test builds its full parameter set and looks only at its own values; left-over settings from an earlier test cannot be told from defaults.',
  [MS, IO], [('parameters of a simulation object', MS + ':MetSim.__init__'), ('unit and metadata tables', MS + ':attrs, available_outputs')],
  ['output files and attributes after each history'],
  [('default parameter table', 'class level defaults', MS + ':MetSim.params'), ('metadata table', 'module level attributes', MS + ':attrs')])
p('C17', 'The same forcing gives the same output in every input format',
  "Equal daily forcing supplied as a NetCDF file, several NetCDF files matched by a pattern, an in-memory dataset, per-cell ASCII files or per-cell VIC binary files gives identical output (binary to its stored resolution). Variable names, number and column order, scale and signedness, the order and presence of additional cells or files, additional days beyond the run, and the time of day of the daily stamps do not matter. Every value used is the one stored for that cell and that day.",
  ['inputs', 'configurations'], 'all formats, column orders and counts, scales and signedness, renamed variables, run windows inside longer records, extra files',
  'Each format is run on its own data set with one fixed column order and four variables; formats are never compared.',
  [IO], [('format readers', IO + ':read_netcdf, read_data, read_ascii, read_binary, process_vic')],
  ['output files of runs that differ only in the input format'])
p('C18', 'YAML, INI, Python and command line configurations mean the same',
  "The same settings given as a YAML file, an INI file, a Python dictionary or through the command line program produce the same output files. Every option takes effect in each form, with the same default when omitted, whatever the letter case of named choices, the spelling of booleans and dates the format allows, comments and blank lines. A missing output directory is created.",
  ['configurations'], 'all documented options and their combinations in each form, option spellings, file layout',
  'Tests only assert that example configurations produce some output.',
  [IO, 'metsim/cli/ms.py', MS], [('configuration readers', IO + ':read_config, read_yaml_config, read_ini_config'), ('command line', 'metsim/cli/ms.py')],
  ['output files produced through each front end'])
p('C19', 'Invalid settings and unusable inputs fail loudly',
  "A run whose settings or data are invalid (time step not dividing a day or between 6 h and a day, unknown method, option or precision, output variable not available at that step, no forcing or no output variables, dates outside the forcing, state shorter than 90 days, forcing maximum below minimum temperature, missing values in a processed cell's required forcing) ends with an error, and with a non-zero exit status from the command line, rather than with a plausible-looking output. Valid settings are accepted. A failure inside any one worker, whichever chunk and scheduler, makes the whole run fail.",
  ['configurations', 'inputs', 'fault_sequences'], 'all invalid values of each checked option and input, at any cell or day, alone and combined, in any chunk',
  'No test feeds invalid input.',
  [MS, IO], [('setup validation', MS + ':_validate_setup, _validate_force_times'), ('data validation', MS + ':_aggregate_state, run_slice'), ('propagation of worker errors', MS + ':run')],
  ['exceptions, exit status and files left behind'])
p('C20', 'A run restarted from its own history continues exactly',
  "Splitting a simulation period in two and starting the second part from a state holding the previous 90 days of the same temperatures and precipitation gives the same daily results as the uninterrupted run to the dewpoint tolerance, and the same sub-daily local-time values from the second day of the restarted part to the day before its end (with UTC output, one more day in from either end). Only those 90 days matter: older history and the calendar labels of other periods have no influence.",
  ['histories', 'inputs'], 'all split points (months, years, leap days), record lengths, forcings, variables',
  'No test restarts a run; state files in the tests are fixed and unrelated to the forcing.',
  [MS], [('state concatenation and rolling windows', MS + ':_aggregate_state'), ('record continuation', MS + ':wrap_run_cell')],
  ['output files of whole and restarted runs'])
p('C21', 'Each day influences only its own neighbourhood in time',
  "Changing the forcing of one day changes sub-daily precipitation and wind only on that local day, temperature only from one time step before the preceding day to two days after, and nothing else any earlier; effects on humidity and radiation end once the day leaves the 30-day and 90-day windows. Lengthening the record at its end leaves all earlier days but the last two unchanged.",
  ['inputs', 'histories'], 'all days of all records, every forcing variable, all time steps; up to the dewpoint tolerance for humidity-related variables',
  'Tests look at complete records only; leakage between days (a wrong roll, fill or window) is not observable in means.',
  [DIS, MS], [('day-wise disaggregation', DIS), ('rolling windows', MS + ':_aggregate_state')],
  ['output files of run pairs that differ in one day'])
p('C22', 'A killed or failed run never passes for success; rerunning repairs it',
  "If reading an input, opening or writing an output file fails at any point, or a worker dies, the run reports failure (a run that ends normally has written its whole output). Whatever an interrupted, failed or older run left in the output directory, running again with the same settings gives exactly the output of an undisturbed run, with nothing of the earlier content left in its files. Input files are never modified.",
  ['crash_points', 'fault_sequences'], 'failure or kill at any file open, read or write operation of a run, in any chunk, and any pre-existing content under the output names',
  'No test injects faults or reruns over existing output on purpose.',
  [MS], [('output files created afresh', MS + ':setup_netcdf_output'), ('chunk writes and error propagation', MS + ':run, write_chunk')],
  ['exit of the faulted run, output files after the rerun, input file hashes'])
p('C23', 'A simulation never alters what the caller handed to it',
  "Constructing and running a simulation leaves the caller's configuration dictionary (including nested sections) and in-memory datasets unchanged in values, names, coordinates and attributes, so that the same objects can be reused for further simulations with the same result; input files keep their content.",
  ['histories', 'configurations'], 'all configurations, in-memory forcings, output variable specifications with and without units, successful and failing runs',
  'Tests never look at their parameters after a run.',
  [MS, IO], [('copying of parameters and data', MS + ':MetSim.__init__, met_data; ' + IO + ':read_data')],
  ['deep comparison of arguments before and after'])
p('C24', 'Calendars: leap days and no-leap years are handled consistently',
  "In the standard calendar 29 February exists in leap years and every date gets its own day-of-year geometry and month parameters; in the no-leap calendar 28 February is followed directly by 1 March, in every year, both in the forcing read and in the output written, and the file declares the calendar its times are encoded in. For periods whose dates exist in both, all calendars give the same values for the same data, and a run can start at any date, also within 90 days after 29 February of a leap year.",
  ['inputs', 'configurations'], 'all start dates and lengths around month, year and leap-day boundaries, calendars standard, gregorian, proleptic_gregorian, noleap, 365_day',
  'Tests only use standard-calendar data inside single non-leap years.',
  ['metsim/datetime.py', MS, IO], [('calendar aware date ranges', 'metsim/datetime.py:date_range'), ('time encoding', MS + ':setup_netcdf_output'), ('state window', MS + ':_validate_force_times, _aggregate_state')],
  ['time axes and values of the output files'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
