"""Writes known_findings.txt from the fix commits in /repo and the list below."""
import os
import subprocess
FIX = {   # start of the subject of the fix commit -> (property, what failed)
 'shift UTC output by the exact longitude': ('C11', 'the UTC shift of longitudes that are whole minutes of time (e.g. -92.5, -123.75) was one minute short, by truncation of an inexact quotient (also C01, C08)'),
 'let workers of distributed schedulers read': ('C15', 'forcings of several files failed under the distributed scheduler (the default of the command line program) and under any cluster given by address or file'),
 'give every MetSim instance its own copy': ('C16', 'settings of one simulation object (chunks, out_vars, dates) leaked into every later one through the class-level defaults, and the caller\'s dictionaries were altered (also C23)'),
 'keep output attributes per simulation': ('C16', 'a unit requested in one run changed the units attribute declared by later runs in the same process, and values were labelled with a unit they were not in (also C13)'),
 'do not alter the available outputs': ('C16', 'reading an INI configuration altered the module-level table of available outputs'),
 'accept lw_type and lw_cloud in any': ('C18', 'lw_type/lw_cloud given in upper case were rejected, an unknown prec_type silently ran as uniform (also C19)'),
 'allow chunks that name only some': ('C15', 'chunks naming only one of two dimensions raised KeyError'),
 'serialize file access of threaded': ('C15', 'threaded runs crashed (segmentation fault, HDF errors) because workers entered the non-thread-safe NetCDF library at once'),
 'make the multiprocessing schedulers': ('C15', 'scheduler multiprocessing/processes failed: locks could not be pickled'),
 'let start and stop default': ('C18', 'omitting start/stop raised KeyError although the default is the forcing period'),
 'read binary forcings with any number': ('C17', 'binary forcing with other than 4 variables was read misaligned'),
 'do not scale passthrough shortwave': ('C10', 'passthrough daily shortwave was written scaled by the day length'),
 'estimate passthrough pet': ('C10', 'passthrough pet (hence dewpoint, humidity) used the full-day mean where the daylight mean is meant'),
 'keep precipitation of triangle storms': ('C01', 'storms shorter than two minutes or at the day edge lost the day\'s rain or produced NaN'),
 'give output files of less than a day': ('C12', 'out_freq below a day wrote all files of a day under one name, each overwriting the last; empty groups of noleap calendars failed (also C24)'),
 'find the state period by the calendar': ('C24', 'noleap runs starting within 90 days after 29 February of a leap year looked for 91 days of state and failed'),
 'report ASCII and binary forcing files': ('C17', 'errors reading a per-cell file were swallowed and the cell was written as missing (also C19)'),
 'raise an error for missing values': ('C19', 'NaN in forcing or state of a processed cell was filled forward silently'),
 'apply the monthly storm parameters': ('C02', 'storm peak and duration of month m were applied to another month for month coordinates other than 0..11 (also C24)'),
 'create the output directory': ('C18', 'a missing output directory failed from Python although it is created from the command line'),
 'accept dates given as YYYY-MM-DD': ('C18', 'YAML dates parsed by the YAML reader (2000-01-01) raised AttributeError'),
 'read the variables of binary forcings': ('C18', 'YAML configurations inverted the variable mapping of binary forcings and failed'),
 'skip blank lines when detecting': ('C18', 'a blank or comment line before "MetSim:" made a YAML file be read as INI'),
 'keep vapor pressure at the ends': ('C06', 'sub-daily vapor pressure was extrapolated beyond the first/last day above saturation; one-day runs failed (also C12)'),
 'allow t_day as daily output': ('C19', 't_day, listed as valid daily output, raised KeyError'),
 'convert air pressure from kPa': ('C13', 'air_pressure requested in hPa was written ten times too large (kPa * 100)'),
 'let out_vars and chunks take': ('C18', 'a configuration file without out_vars or chunks failed although defaults are documented'),
 'end period-ending records of noleap': ('C24', 'period-ending noleap runs whose last day is 28 February of a leap year failed: their last stamp was made 29 February'),
 'select cells and days of in-memory': ('C17', 'in-memory forcings were used by position, not by coordinate: other cell order gave other cells\' data silently, chunks or additional cells failed, one given date alone was ignored'),
 'keep the calendar of the forcing': ('C24', 'the calendar of the forcing file was dropped while reading, so a noleap forcing without calendar setting failed or was declared standard'),
 'read ASCII forcings that have more': ('C17', 'ASCII files with more columns than named variables were read shifted by one column'),
 'end with an error if the dewpoint': ('C09', 'the dewpoint iteration did not end for t_min above about 45 C with t_max above 60 C, or unreachable tolerances'),
 'keep the type of coordinates': ('C13', 'labels of uint or short integer type were written in the output precision and lost digits, and labels that are text made the run fail'),
 'recognise YAML files whatever': ('C18', 'a YAML file whose first section is not MetSim, or that begins with ---, was read as INI and failed'),
 'accept every boolean spelling': ('C18', 'yes, on and 1, true in INI files, were read as false for utc_offset and period_ending'),
 'run when the command line tool': ('C18', 'the command line program, started as python -m metsim.cli.ms or as a file, did nothing and reported success'),
 'end the workers of a failed run': ('C22', 'after a threaded run failed, its other worker threads went on: a rerun in the same process crashed in the NetCDF library or could not open its output'),
 'select the variables of in-memory': ('C17', 'an in-memory dataset with another variable that already has the name of one of the variables of the simulation failed, while the same data in NetCDF files worked'),
}
KNOWN = [
 ('C06', 'vp-kpa', 'sub-daily vapor_pressure is declared in Pa but its values are kPa, a factor of exactly 1000 (pinned by test_disaggregation_values, so it cannot be repaired with the test unedited)'),
 ('C13', 'vp-kpa', 'sub-daily vapor_pressure in every requested unit is a factor of exactly 1000 too small for the declared unit (values enter the conversion as kPa; same cause as C06)'),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out, used = [], set()
for line in log.splitlines():
    h, sub = line.split(' ', 1)
    if not sub.startswith('fix:'):
        continue
    k = [k for k in FIX if sub[5:].startswith(k)]
    assert len(k) == 1, sub
    used.add(k[0])
    out.append('fixed: property=%s %s %s' % (FIX[k[0]][0], h, FIX[k[0]][1]))
assert used == set(FIX), set(FIX) - used
out += ['known: property=%s key=%s %s' % k for k in KNOWN]
open(os.path.join(here, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
