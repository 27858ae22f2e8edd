From d5ab3ecee0dd27c4ad9f431a14a41db68a0dfabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 01/38] fix: give every MetSim instance its own copy of the
 settings

MetSim.params is a class level dictionary that the constructor updated in
place, so that settings leaked from one simulation into every later one and
into simulations that were already set up.
---
 metsim/metsim.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..46a64e3 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -180,7 +180,8 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
-        self.params.update(params)
+        # Each instance works on its own copy of the settings
+        self.params = _copy_settings({**MetSim.params, **params})
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
@@ -796,6 +797,15 @@ def wrap_run_cell(func: callable, params: dict,
     return df_complete, df_base
 
 
+def _copy_settings(settings):
+    '''
+    Copy a (nested) dictionary of settings, leaving any datasets
+    that it refers to uncopied
+    '''
+    return {k: _copy_settings(v) if isinstance(v, dict) else v
+            for k, v in settings.items()}
+
+
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
-- 
2.43.0


From ee430d63e5006506c3a5a9245b601a0b931ae21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 02/38] fix: keep output attributes per simulation and label
 values with their own unit

The module level attrs dictionary was modified by every simulation, so units
and global attributes of an earlier simulation ended up in the files of a later
one, and the default unit was not restored when no or an unknown unit was given.
---
 metsim/metsim.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 46a64e3..4a54d15 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -28,6 +28,7 @@ output specified.
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import itertools
 import json
 import logging
@@ -220,6 +221,8 @@ class MetSim(object):
         else:
             # If not in verbose mode, create a dummy function
             self.progress_bar = lambda x: x
+        # Output metadata, adapted to the settings of this instance
+        self.attrs = copy.deepcopy(attrs)
         # Create time vector(s)
         self._times = self._get_output_times(
             freq=self.params['out_freq'],
@@ -230,9 +233,7 @@ class MetSim(object):
     def _update_unit_attrs(self, out_vars):
         for k, v in out_vars.items():
             if 'units' in v.keys():
-                if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
-                else:
+                if v['units'] not in converters[k].keys():
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
                         f' We will use the default units of'
@@ -240,6 +241,7 @@ class MetSim(object):
                     v['units'] = available_outputs[k]['units']
             else:
                 v['units'] = available_outputs[k]['units']
+            self.attrs[k]['units'] = v['units']
 
     def _validate_force_times(self, force_times):
         for p, i in [('start', 0), ('stop', -1)]:
@@ -268,13 +270,13 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'UTC time',
-                             'standard_name': 'utc_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'UTC time',
+                                  'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'local time at grid location',
-                             'standard_name': 'local_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'local time at grid location',
+                                  'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
         self.met_data[name] = self.met_data['prec'].copy()
@@ -388,7 +390,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -422,18 +424,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -584,8 +586,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
-- 
2.43.0


From 33197b5ebe82fd9e6f8594a765d0ffae89c3f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 03/38] fix: do not alter the available outputs while reading
 an INI configuration

The out_name given in one configuration file was written into the module level
available_outputs and so became the default for all that followed.
---
 metsim/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..380ab1e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -147,7 +147,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -155,7 +155,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
-- 
2.43.0


From 521cc03ee0dd35de257f0e4c948f0162ab665bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 04/38] fix: accept lw_type and lw_cloud in any letter case and
 check prec_type

The documentation says that capitalization does not matter, but only lower case
names passed the validation; an unknown prec_type was silently run as uniform.
---
 metsim/metsim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 4a54d15..af3ad8e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -674,12 +674,17 @@ class MetSim(object):
 
         # Check that the parameters specified are available
         opts = {'out_precision': ['f4', 'f8'],
+                'prec_type': ['uniform', 'triangle', 'mix'],
                 'lw_cloud': ['default', 'cloud_deardorff'],
                 'lw_type': ['default', 'tva', 'anderson',
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            value = self.params.get(k, None)
+            if k != 'out_precision':
+                # Capitalization does not matter
+                value = str(value).lower()
+            if value not in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From 01dcad650a9fc1c55dc45692c691ee69c035ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 05/38] fix: allow chunks that name only some of the domain's
 dimensions

Writing a chunk raised a KeyError for every dimension not given in chunks.
---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index af3ad8e..9197ad8 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -452,7 +452,8 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None))
+                            for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From cfaca757f38bd4f07d97ab15c6b44406423fa9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 06/38] fix: serialize file access of threaded workers

Workers of the threaded schedulers opened, read and closed NetCDF files
concurrently, although neither the NetCDF nor the HDF5 library is thread safe,
which crashed the process with more than one worker. Input files are now closed
explicitly rather than whenever their handles happen to be garbage collected.
---
 metsim/io.py     |  5 +++++
 metsim/metsim.py | 20 +++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 380ab1e..6161afb 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -270,6 +270,8 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
     else:
         ds = xr.open_dataset(data_handle)
 
+    handle = ds
+
     # Needs to happen first to make sure variable names are correct
     if var_dict is not None:
         var_list = list(var_dict.keys())
@@ -300,6 +302,9 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         dates = ds.indexes['time']
         ds['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
 
+    # Let closing the selected data close the file
+    if ds is not handle:
+        ds.set_close(handle.close)
     return ds
 
 
diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9197ad8..f1d99b1 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -46,6 +46,7 @@ import xarray as xr
 
 import dask
 from dask.diagnostics import ProgressBar
+from dask.utils import SerializableLock
 from netCDF4 import Dataset
 from cftime import date2num
 from datetime import datetime
@@ -64,6 +65,10 @@ NO_SLICE = {}
 DASK_CORE_SCHEDULERS = ['multiprocessing', 'threading', 'synchronous',
                         'processes', 'threads', 'single-threaded', 'sync']
 
+# Serializes the file access of workers that are threads of the same process,
+# because the NetCDF and HDF5 libraries are not thread safe
+WORKER_IO_LOCK = SerializableLock('metsim-worker-io')
+
 references = '''Thornton, P.E., and S.W. Running, 1999. An improved algorithm for estimating incident daily solar radiation from measurements of temperature, humidity, and precipitation. Agricultural and Forest Meteorology, 93:211-228.
 Kimball, J.S., S.W. Running, and R. Nemani, 1997. An improved method for estimating surface humidity from daily minimum temperature. Agricultural and Forest Meteorology, 85:87-98.
 Bohn, T. J., B. Livneh, J. W. Oyler, S. W. Running, B. Nijssen, and D. P. Lettenmaier, 2013a: Global evaluation of MT-CLIM and related algorithms for forcing of ecological and hydrological models, Agr. Forest. Meteorol., 176, 38-49, doi:10.1016/j.agrformet.2013.03.003.'''
@@ -289,8 +294,9 @@ class MetSim(object):
     @property
     def domain(self):
         if self._domain is None:
-            self._domain = io.read_domain(self.params).isel(
-                **self._domain_slice)
+            domain = io.read_domain(self.params)
+            self._domain = domain.isel(**self._domain_slice)
+            self._domain.set_close(domain.close)
         return self._domain
 
     @property
@@ -345,6 +351,8 @@ class MetSim(object):
         self.progress_bar(persisted)
         dask.compute(persisted)
         self.logger.info('Cleaning up...')
+        self.domain.close()
+        self.met_data.close()
         try:
             self._client.cluster.close()
             self._client.close()
@@ -817,10 +825,12 @@ def _copy_settings(settings):
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
-    ms = MetSim(params, domain_slice=domain_slice)
-    ms.load_inputs()
+    with WORKER_IO_LOCK:
+        ms = MetSim(params, domain_slice=domain_slice)
+        ms.load_inputs()
     ms.run_slice()
-    ms.write_chunk(locks=write_locks)
+    with WORKER_IO_LOCK:
+        ms.write_chunk(locks=write_locks)
 
 
 def chunk_domain(chunks, dims):
-- 
2.43.0


From 14fb68e8c9d0a7a427ead2cf01de48a7dcd27252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 07/38] fix: make the multiprocessing schedulers work

The lock that protects the output file could not be sent to the worker
processes, so that every run with the processes or multiprocessing scheduler
failed.
---
 metsim/metsim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index f1d99b1..045d356 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -32,6 +32,7 @@ import copy
 import itertools
 import json
 import logging
+import multiprocessing
 import os
 import sys
 import warnings
@@ -339,10 +340,16 @@ class MetSim(object):
     def run(self):
         self._validate_setup()
         write_locks = {}
+        lock_manager = None
+        if self.params['scheduler'] in ['multiprocessing', 'processes']:
+            # A plain multiprocessing lock can't be sent to the workers
+            lock_manager = multiprocessing.Manager()
         for times in self._times:
             filename = self._get_output_filename(times)
             self.setup_netcdf_output(filename, times)
-            write_locks[filename] = combine_locks([NETCDFC_LOCK, get_write_lock(filename)])
+            write_lock = (lock_manager.Lock() if lock_manager
+                          else get_write_lock(filename))
+            write_locks[filename] = combine_locks([NETCDFC_LOCK, write_lock])
         self.logger.info('Starting {} chunks...'.format(len(self.slices)))
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
@@ -350,6 +357,8 @@ class MetSim(object):
         persisted = dask.persist(delayed_objs, num_workers=self.params['num_workers'])
         self.progress_bar(persisted)
         dask.compute(persisted)
+        if lock_manager:
+            lock_manager.shutdown()
         self.logger.info('Cleaning up...')
         self.domain.close()
         self.met_data.close()
-- 
2.43.0


From 84104b20811f7eeda7c4b014ae6122e9552af2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 08/38] fix: let start and stop default to the period of the
 forcing

The default value 'forcing' was handed to the selection of dates, where it
raised an error.
---
 metsim/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 6161afb..379f892 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -204,9 +204,13 @@ def process_nc(params: dict, domain: xr.Dataset) -> xr.Dataset:
         "netcdf": read_netcdf,
         "data": read_data
     }
+    # By default the simulation covers all of the forcing data
+    start, stop = [None if isinstance(params[p], str)
+                   and params[p] == 'forcing' else params[p]
+                   for p in ['start', 'stop']]
     return read_funcs[params['forcing_fmt']](
         params['forcing'], domain=domain,
-        start=params['start'], stop=params['stop'],
+        start=start, stop=stop,
         calendar=params['calendar'], var_dict=params.get('forcing_vars', None))
 
 
-- 
2.43.0


From 24920f4310397141e392632baeb2cf1473e157ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 09/38] fix: read binary forcings with any number of variables

The number of values to read assumed four variables, so that any other number
of variables gave a cell without data.
---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 379f892..4f8f888 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -347,7 +347,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From e2b973175f25903eaa0c6287867ec41ce6ea17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 10/38] fix: do not scale passthrough shortwave by the day
 length in daily output

Passthrough shortwave is an average over the whole day already, unless
sw_averaging is set to daylight.
---
 metsim/metsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 045d356..65a84a4 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -804,7 +804,10 @@ def wrap_run_cell(func: callable, params: dict,
             calendar=params['calendar'])
     else:
         # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # (passthrough shortwave is a daily average unless stated otherwise)
+        if (params['method'] != 'passthrough'
+                or params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From a3626d002fc7549221d4792b8078d05264902fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 11/38] fix: estimate passthrough pet from the daylight average
 of shortwave

calc_pet expects the average over the daylight period while passthrough
shortwave is by default an average over the whole day, so that pet, and dewpoint
and vapor pressure derived from it, did not match the mtclim method.
---
 metsim/methods/passthrough.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metsim/methods/passthrough.py b/metsim/methods/passthrough.py
index 9e99a57..3bcbfd7 100644
--- a/metsim/methods/passthrough.py
+++ b/metsim/methods/passthrough.py
@@ -36,7 +36,13 @@ def run(df, params):
     if 'tskc' not in df:
         df['tskc'] = tskc(df['tfmax'].values, params)
     if 'pet' not in df:
-        df['pet'] = pet(df['shortwave'].values, df['t_day'].values,
+        # pet needs the average flux over the daylight period
+        sw = df['shortwave'].values
+        if params.get('sw_averaging', '') != 'daylight':
+            dayl = df['daylength'].values
+            sw = np.divide(sw * cnst.SEC_PER_DAY, dayl,
+                           out=np.zeros_like(dayl), where=dayl > 0)
+        df['pet'] = pet(sw, df['t_day'].values,
                         df['daylength'].values, params)
     if 'tdew' not in df:
         df['tdew'] = tdew(df['pet'].values, df['t_min'].values,
-- 
2.43.0


From aaca1365491447b045587f421850796cb3a15eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 12/38] fix: keep precipitation of triangle storms shorter than
 the resolution

If no minute had a non-zero weight the scaling divided by zero and the
precipitation of that day was replaced by that of a neighbouring step.
---
 metsim/disaggregate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..c0e23cf 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -323,6 +323,10 @@ def prec(prec: pd.Series, t_min: pd.Series, ts: float, params: dict,
                 prec_day[t_plus] = np.linspace(0, 1.0, len(t_plus))
                 prec_day[t_minus] = np.linspace(1.0, 0, len(t_minus))
 
+                # Storms too short to be resolved fall within a single minute
+                if not prec_day.any():
+                    prec_day[min(int(t_pk), ts_per_day - 1)] = 1.0
+
                 # Scale to input precipitation
                 prec_day = (P / np.sum(prec_day)) * prec_day
             disagg_prec[i*ts_per_day:(i+1)*ts_per_day] = prec_day
-- 
2.43.0


From 1d0f6ab43f11b70bed4b3b4bac4444f7dd6f4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 13/38] fix: give output files of less than a day distinct
 names

With an output frequency below one day several files had the same name and
overwrote each other. Frequencies with empty groups, such as the leap day of a
daily frequency in a noleap calendar, no longer fail.
---
 metsim/metsim.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 65a84a4..a9f2746 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -574,7 +574,8 @@ class MetSim(object):
         else:
             dummy = pd.Series(np.arange(len(times)), index=times)
             grouper = pd.Grouper(freq=freq)
-            times = [t.index for k, t in dummy.groupby(grouper)]
+            # Groups may be empty, e.g. for leap days in a noleap calendar
+            times = [t.index for k, t in dummy.groupby(grouper) if len(t)]
         return times
 
     def _get_output_filename(self, times):
@@ -712,8 +713,13 @@ class MetSim(object):
     def get_nc_output_suffix(self, times):
         s, e = times[[0, -1]]
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
-        return template.format(s.year, s.month, s.day,
-                               e.year, e.month, e.day,)
+        suffix = template.format(s.year, s.month, s.day,
+                                 e.year, e.month, e.day,)
+        # Several files for a day can only be told apart by the time of day
+        freq = pd.tseries.frequencies.to_offset(self.params['out_freq'] or 'D')
+        if isinstance(freq, pd.offsets.Tick) and freq < pd.offsets.Day(1):
+            suffix = '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
+        return suffix
 
 
 def wrap_run_cell(func: callable, params: dict,
-- 
2.43.0


From 6d974af80d7e08b36b3d5152693d31f48ab64df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 14/38] fix: find the state period by the calendar of the
 simulation

In a noleap calendar the 90 days before a start within 90 days after a
29 February were counted over that day, so that such simulations failed.
---
 metsim/datetime.py | 11 +++++++++++
 metsim/metsim.py   | 10 +++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index dcd60aa..d4812bd 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -72,6 +72,17 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
                 'Specified arguments are not valid for this calendar')
 
 
+def add_days(date, days, calendar='standard'):
+    ''' Return the date a number of days after the given one in a calendar '''
+    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+        return date + pd.Timedelta(days, unit='D')
+    units = units_from_freq('D')
+    num = date2num(pd.Timestamp(date).to_pydatetime(), units,
+                   calendar=calendar)
+    return pd.Timestamp(
+        num2date(num + days, units, calendar).isoformat()).to_pydatetime()
+
+
 def decode_freq(freq):
     if len(freq) > 1:
         r = re.compile('([0-9]+)([a-zA-Z]+)')
diff --git a/metsim/metsim.py b/metsim/metsim.py
index a9f2746..e94ed31 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -56,7 +56,7 @@ from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
 from metsim import io
-from metsim.datetime import date_range
+from metsim.datetime import add_days, date_range
 from metsim.disaggregate import disaggregate
 from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
@@ -271,10 +271,10 @@ class MetSim(object):
         assert self.params['stop'] <= pd.Timestamp(
             force_times.values[-1]).to_pydatetime()
 
-        self.params['state_start'] = (self.params['start'] -
-                                      pd.Timedelta("90 days"))
-        self.params['state_stop'] = (self.params['start'] -
-                                     pd.Timedelta("1 days"))
+        self.params['state_start'] = add_days(
+            self.params['start'], -90, calendar=self.params['calendar'])
+        self.params['state_stop'] = add_days(
+            self.params['start'], -1, calendar=self.params['calendar'])
         if self.params['utc_offset']:
             self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                                   'long_name': 'UTC time',
-- 
2.43.0


From 2cbef6ba82dd2c56783111c25e4edcbce2b47edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 15/38] fix: report ASCII and binary forcing files that can't
 be read

Any error while reading a forcing file was taken for a file outside of the
domain, and its cell was silently left without data.
---
 metsim/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 4f8f888..fbadbdf 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -243,13 +243,14 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
             lat, lon = float(lat), float(lon)
             if not domain['mask'].sel(lat=lat, lon=lon).values > 0:
                 continue
-            ds = read_funcs[params['forcing_fmt']](
-                job, start=params['start'], stop=params['stop'],
-                calendar=params['calendar'], var_dict=params['forcing_vars'])
-            for var in params['forcing_vars'].keys():
-                met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
         except (ValueError, KeyError):
+            # Not a forcing file, or not in the domain
             continue
+        ds = read_funcs[params['forcing_fmt']](
+            job, start=params['start'], stop=params['stop'],
+            calendar=params['calendar'], var_dict=params['forcing_vars'])
+        for var in params['forcing_vars'].keys():
+            met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
     return met_data
 
 
-- 
2.43.0


From 96caa3fa28a9b270dec2b58d9af3762e764cae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 16/38] fix: raise an error for missing values in a processed
 cell

Missing values in the forcing, state or domain of a cell that is not masked out
were filled with neighbouring values or gave output without values, although
the documentation promises an error.
---
 metsim/metsim.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index e94ed31..7b00592 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -759,6 +759,16 @@ def wrap_run_cell(func: callable, params: dict,
     params['lat'] = lat
     params['lon'] = lon
     df = ds.to_dataframe()
+    required = ['t_min', 't_max', 'prec', 'seasonal_prec', 'smoothed_dtr',
+                'elev']
+    if params['method'] == 'passthrough':
+        required.append('shortwave')
+    if params['prec_type'].upper() in ['TRIANGLE', 'MIX']:
+        required.extend(['dur', 't_pk'])
+    for var in required:
+        if df[var].isnull().any():
+            raise ValueError("Missing values in {} at lat {}, lon {}, "
+                             "which is not masked out".format(var, lat, lon))
 
     # solar_geom returns a tuple due to restrictions of numba
     # for clarity we convert it to a dictionary here
-- 
2.43.0


From 91282534bce865c6d3c61c5742f5090dd9e03d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 17/38] fix: apply the monthly storm parameters to the right
 month

dur and t_pk of every month were applied to the month before, those of January
never, and December used the precipitation in place of them.
---
 metsim/metsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 7b00592..8d4f05d 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -288,8 +288,9 @@ class MetSim(object):
         self.met_data[name] = self.met_data['prec'].copy()
         months = self.met_data['time'].dt.month
         for m in range(12):
-            param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            param = self.domain[name].isel(month=m)
+            locations = {'time': self.met_data['time'].isel(
+                time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From 0e426b4bb771603a7f5d6f6449075a58b1c934b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 18/38] fix: create the output directory if it does not exist,
 as documented

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 8d4f05d..9cadc47 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -340,6 +340,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(self.params['out_dir'], exist_ok=True)
         write_locks = {}
         lock_manager = None
         if self.params['scheduler'] in ['multiprocessing', 'processes']:
-- 
2.43.0


From 734ad54a19591050e1aa4dc6758292f3740a1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 19/38] fix: accept dates given as YYYY-MM-DD in YAML
 configurations

They are documented, but are parsed to date objects that the selection of dates
does not accept.
---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index fbadbdf..5e34306 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -18,6 +18,7 @@ IO Module for MetSim
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>
 
+import datetime
 import os
 import struct
 import logging
@@ -74,6 +75,10 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
+    # YAML reads dates given as YYYY-MM-DD as date objects
+    for p in ['start', 'stop']:
+        if isinstance(conf.get(p), datetime.date):
+            conf[p] = str(conf[p])
     conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
-- 
2.43.0


From af7733e576cd1d020a09c814cea7bf6fe45e20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 20/38] fix: read the variables of binary forcings from YAML
 configurations

The scale and type of each variable were swapped with its name.
---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 5e34306..ba96130 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -79,7 +79,9 @@ def read_yaml_config(config_file, opts):
     for p in ['start', 'stop']:
         if isinstance(conf.get(p), datetime.date):
             conf[p] = str(conf[p])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf['forcing_fmt'] != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From 554fac449202d48d91f8c8359bdfb63ab5ab2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 21/38] fix: skip blank lines when detecting the configuration
 format

A YAML file with a blank line before its first section was taken for INI.
---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index ba96130..8219912 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -48,7 +48,7 @@ def check_config_type(config_file):
     # Search for first non-comment line
     line = '#'
     with open(config_file, 'r') as f:
-        while line.strip().startswith('#'):
+        while line.strip().startswith('#') or line.isspace():
             line = f.readline()
     # Strip out any inline comment
     line = line.split('#')[0].strip()
-- 
2.43.0


From d0e3602f221c934a0e41f470d452c6b62d0543b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 22/38] fix: keep vapor pressure at the ends of the record
 within saturation

Values before the first and after the last time of minimum temperature were
filled from their neighbours after the comparison to saturation, and were
missing altogether in simulations of a single day.
---
 metsim/disaggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index c0e23cf..1694329 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -480,10 +480,10 @@ def vapor_pressure(vp_daily: np.array, temp: np.array, t_t_min: np.array,
     vp:
         A sub-daily timeseries of the vapor pressure
     """
-    # Linearly interpolate the values
-    interp = scipy.interpolate.interp1d(t_t_min, vp_daily / cnst.MBAR_PER_BAR,
-                                        bounds_error=False)
-    vp_disagg = interp(ts * np.arange(0, n_out))
+    # Linearly interpolate the values, repeating the first and last
+    # daily value at the ends of the record
+    vp_disagg = np.interp(ts * np.arange(0, n_out), t_t_min,
+                          vp_daily / cnst.MBAR_PER_BAR)
 
     # Account for situations where vapor pressure is higher than
     # saturation point
-- 
2.43.0


From fcc81de59b09301126505a51915e8a19061923b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 23/38] fix: allow t_day as daily output

The setup validation accepts it, but it had no metadata and unit conversion.
---
 metsim/metsim.py | 3 +++
 metsim/units.py  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9cadc47..6231a96 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -98,6 +98,9 @@ attrs = {'pet': {'units': 'mm timestep-1',
          't_min': {'units': 'C', 'long_name': 'minimum daily air temperature',
                    'standard_name': 'daily_minimum_air_temperature',
                    'missing_value': np.nan, 'fill_value': np.nan},
+         't_day': {'units': 'C', 'long_name': 'mean daytime air temperature',
+                   'standard_name': 'daytime_air_temperature',
+                   'missing_value': np.nan, 'fill_value': np.nan},
          'temp': {'units': 'C', 'long_name': 'air temperature',
                   'standard_name': 'air_temperature',
                   'missing_value': np.nan, 'fill_value': np.nan},
diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..14e3ba6 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -25,6 +25,10 @@ converters = {
             'C': lambda x, ts: x,
             'K': lambda x, ts: x + 273.15,
             },
+        't_day': {
+            'C': lambda x, ts: x,
+            'K': lambda x, ts: x + 273.15,
+            },
         'temp': {
             'C': lambda x, ts: x,
             'K': lambda x, ts: x + 273.15,
-- 
2.43.0


From 0a3d3292bbed130b7fd4c261e8a121d5696ec0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 24/38] fix: end with an error if the dewpoint iteration does
 not converge

---
 metsim/methods/mtclim.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metsim/methods/mtclim.py b/metsim/methods/mtclim.py
index 612c6b2..54957fd 100644
--- a/metsim/methods/mtclim.py
+++ b/metsim/methods/mtclim.py
@@ -25,6 +25,10 @@ import metsim.constants as cnst
 from metsim.physics import atm_pres, calc_pet, svp
 
 
+# Realistic inputs need far fewer iterations
+MAX_TDEW_ITER = 10000
+
+
 def run(df: pd.DataFrame, params: dict) -> pd.DataFrame:
     """
     Runs the entire mtclim set of estimation routines. This will take
@@ -60,7 +64,12 @@ def run(df: pd.DataFrame, params: dict) -> pd.DataFrame:
     tdew_temp = tdew(pet_temp, df['t_min'].values, df['seasonal_prec'].values,
                      df['dtr'].values)
 
+    n_iter = 0
     while np.sqrt(np.mean((tdew_temp - tdew_old)**2)) > params['tdew_tol']:
+        n_iter += 1
+        if n_iter > MAX_TDEW_ITER:
+            raise ValueError('Dewpoint temperature does not converge, check '
+                             'the input temperatures and tdew_tol')
         tdew_old = tdew_temp.copy()
         vp_temp = vapor_pressure(tdew_temp)
         sw_temp = shortwave(df['tfmax'].values, vp_temp,
-- 
2.43.0


From ac72b03bd3a0acf9a0eb2987affeaca4aaec5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:53 +0000
Subject: [PATCH 25/38] fix: convert air pressure from kPa to hPa correctly

---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index 14e3ba6..65cb285 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -40,7 +40,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From 24b18d9ad505241791f6b57ce293ec9c326a0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 26/38] fix: let out_vars and chunks take their defaults in
 configuration files

---
 metsim/io.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 8219912..d168fde 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -84,11 +84,14 @@ def read_yaml_config(config_file, opts):
         conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
-    conf['out_vars'] = OrderedDict(config['out_vars'])
-    for k, v in conf['out_vars'].items():
-        if 'units' not in v:
-            v['units'] = metsim.available_outputs[k]['units']
-    conf['chunks'] = OrderedDict(config['chunks'])
+    # The default outputs are written and no chunks used unless specified
+    if 'out_vars' in config:
+        conf['out_vars'] = OrderedDict(config['out_vars'])
+        for k, v in conf['out_vars'].items():
+            if 'units' not in v:
+                v['units'] = metsim.available_outputs[k]['units']
+    if 'chunks' in config:
+        conf['chunks'] = OrderedDict(config['chunks'])
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
 
@@ -121,7 +124,8 @@ def read_ini_config(config_file, opts):
         conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
-    conf['chunks'] = OrderedDict(config['chunks'])
+    if 'chunks' in config:
+        conf['chunks'] = OrderedDict(config['chunks'])
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
 
@@ -156,15 +160,13 @@ def read_ini_config(config_file, opts):
         for ov in conf['out_vars']:
             temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
-    else:
-        conf['out_vars'] = {}
     # Dict variant
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
             temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
-        conf['out_vars'].update(temp)
+        conf.setdefault('out_vars', {}).update(temp)
 
     conf = {k: v for k, v in conf.items() if v != []}
     return conf
-- 
2.43.0


From 240b88f14c4606a35be450ad07703db2b3504514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 27/38] fix: end period-ending records of noleap calendars on
 existing dates

---
 metsim/datetime.py | 22 +++++++++++++++-------
 metsim/metsim.py   | 13 ++++++++-----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index d4812bd..ab998e0 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -72,15 +72,23 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
                 'Specified arguments are not valid for this calendar')
 
 
-def add_days(date, days, calendar='standard'):
-    ''' Return the date a number of days after the given one in a calendar '''
+def add_time(date, delta, calendar='standard'):
+    ''' Return the date that is a time delta after the given one in a
+    calendar '''
+    date = pd.Timestamp(date).to_pydatetime()
+    delta = pd.Timedelta(delta)
     if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
-        return date + pd.Timedelta(days, unit='D')
-    units = units_from_freq('D')
-    num = date2num(pd.Timestamp(date).to_pydatetime(), units,
-                   calendar=calendar)
+        return date + delta
+    units = units_from_freq('T')
+    num = date2num(date, units, calendar=calendar)
     return pd.Timestamp(
-        num2date(num + days, units, calendar).isoformat()).to_pydatetime()
+        num2date(num + delta / pd.Timedelta(1, unit='min'), units,
+                 calendar).isoformat()).to_pydatetime()
+
+
+def add_days(date, days, calendar='standard'):
+    ''' Return the date a number of days after the given one in a calendar '''
+    return add_time(date, pd.Timedelta(days, unit='D'), calendar=calendar)
 
 
 def decode_freq(freq):
diff --git a/metsim/metsim.py b/metsim/metsim.py
index 6231a96..1c211b1 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -56,7 +56,7 @@ from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
 from metsim import io
-from metsim.datetime import add_days, date_range
+from metsim.datetime import add_days, add_time, date_range
 from metsim.disaggregate import disaggregate
 from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
@@ -570,9 +570,11 @@ class MetSim(object):
 
         start = pd.Timestamp(prototype['time'].values[0]).to_pydatetime()
         stop = pd.Timestamp(prototype['time'].values[-1]).to_pydatetime()
-        times = date_range(start + offset, stop + offset + delta,
+        calendar = self.params['calendar']
+        times = date_range(add_time(start, offset, calendar=calendar),
+                           add_time(stop, offset + delta, calendar=calendar),
                            freq="{}T".format(self.params['time_step']),
-                           calendar=self.params['calendar'])
+                           calendar=calendar)
 
         if freq is None or freq == '':
             times = [times]
@@ -817,8 +819,9 @@ def wrap_run_cell(func: callable, params: dict,
                 pd.Timedelta("{} minutes".format(params['time_step'])))
 
         if params['period_ending']:
-            start += pd.Timedelta('{} minutes'.format(params['time_step']))
-            stop += pd.Timedelta('{} minutes'.format(params['time_step']))
+            offset = pd.Timedelta('{} minutes'.format(params['time_step']))
+            start, stop = [add_time(t, offset, calendar=params['calendar'])
+                           for t in (start, stop)]
 
         new_times = date_range(
             start, stop, freq='{}T'.format(params['time_step']),
-- 
2.43.0


From 323b9342bc8b57da966d63168951b4243b156f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 28/38] fix: select cells and days of in-memory forcings as for
 files

---
 metsim/io.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index d168fde..ccf488d 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -275,6 +275,28 @@ def read_ascii(data_handle, domain=None, is_worker=False,
     return ds
 
 
+def _select_cells(ds: xr.Dataset, domain: xr.Dataset) -> xr.Dataset:
+    """Select the cells of the domain, in their order"""
+    return ds.sel({k: domain[k]
+                   for k in list(domain.dims.keys())
+                   if k in list(ds.dims.keys())})
+
+
+def _select_times(ds: xr.Dataset, start=None, stop=None) -> xr.Dataset:
+    """Label daily data with dates and select the simulation period"""
+    if 'time' in ds.coords:
+        if isinstance(ds.indexes['time'], xr.CFTimeIndex):
+            ds['time'] = ds.indexes['time'].to_datetimeindex()
+        ds['time'] = (ds.indexes['time'] -
+                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+
+    if start is not None or stop is not None:
+        ds = ds.sel(time=slice(start, stop))
+        dates = ds.indexes['time']
+        ds['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
+    return ds
+
+
 def read_netcdf(data_handle, domain=None, is_worker=False,
                 start=None, stop=None, calendar='standard',
                 var_dict=None) -> xr.Dataset:
@@ -293,9 +315,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         ds = ds.rename(var_dict)
 
     if domain is not None:
-        ds = ds.sel({k: domain[k]
-                     for k in list(domain.dims.keys())
-                     if k in list(ds.dims.keys())})
+        ds = _select_cells(ds, domain)
     else:
         dims_wo_coords = set(ds.dims) - set(ds.coords)
         for d in dims_wo_coords:
@@ -305,16 +325,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
                     'Setting sequential coordinate on dimension {}'.format(d))
             ds[d] = np.arange(0, len(ds[d]))
 
-    if 'time' in ds.coords:
-        if isinstance(ds.indexes['time'], xr.CFTimeIndex):
-            ds['time'] = ds.indexes['time'].to_datetimeindex()
-        ds['time'] = (ds.indexes['time'] -
-                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
-
-    if start is not None or stop is not None:
-        ds = ds.sel(time=slice(start, stop))
-        dates = ds.indexes['time']
-        ds['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
+    ds = _select_times(ds, start, stop)
 
     # Let closing the selected data close the file
     if ds is not handle:
@@ -332,12 +343,9 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
-    if start is not None and stop is not None:
-        data_handle = data_handle.sel(time=slice(start, stop))
-        dates = data_handle.indexes['time']
-        data_handle['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
-
-    return data_handle
+    if domain is not None:
+        data_handle = _select_cells(data_handle, domain)
+    return _select_times(data_handle, start, stop)
 
 
 def read_binary(data_handle, domain=None,
-- 
2.43.0


From 2a20b61b811633375d05ceb187733a02fc95d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 29/38] fix: keep the calendar of the forcing

---
 metsim/datetime.py | 5 +++--
 metsim/io.py       | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index ab998e0..9f82683 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -6,6 +6,7 @@ import xarray as xr
 from netCDF4 import date2num, num2date
 
 DEFAULT_ORIGIN = '0001-01-01'
+STANDARD_CALENDARS = ['standard', 'gregorian', 'proleptic_gregorian']
 
 
 def date_range(start=None, end=None, periods=None, freq='D', tz=None,
@@ -47,7 +48,7 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
     -------
     rng : DatetimeIndex
     '''
-    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+    if calendar in STANDARD_CALENDARS:
         return pd.date_range(start=start, end=end, periods=periods,
                              freq=freq, tz=tz, normalize=normalize, name=name,
                              inclusive=inclusive, **kwargs)
@@ -77,7 +78,7 @@ def add_time(date, delta, calendar='standard'):
     calendar '''
     date = pd.Timestamp(date).to_pydatetime()
     delta = pd.Timedelta(delta)
-    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+    if calendar in STANDARD_CALENDARS:
         return date + delta
     units = units_from_freq('T')
     num = date2num(date, units, calendar=calendar)
diff --git a/metsim/io.py b/metsim/io.py
index ccf488d..c40c76a 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -285,10 +285,14 @@ def _select_cells(ds: xr.Dataset, domain: xr.Dataset) -> xr.Dataset:
 def _select_times(ds: xr.Dataset, start=None, stop=None) -> xr.Dataset:
     """Label daily data with dates and select the simulation period"""
     if 'time' in ds.coords:
+        calendar = ds['time'].encoding.get('calendar', None)
         if isinstance(ds.indexes['time'], xr.CFTimeIndex):
             ds['time'] = ds.indexes['time'].to_datetimeindex()
         ds['time'] = (ds.indexes['time'] -
                       pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+        # Relabelling the days must not lose their calendar
+        if calendar is not None:
+            ds['time'].encoding['calendar'] = calendar
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
-- 
2.43.0


From 5323320738e361cb5539ebe8c50610de88b8f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 30/38] fix: read ASCII forcings that have more columns than
 variables

---
 metsim/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index c40c76a..eb2864b 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -270,7 +270,8 @@ def read_ascii(data_handle, domain=None, is_worker=False,
     dates = date_range(start, stop, calendar=calendar)
     names = list(var_dict.keys())
     ds = pd.read_csv(data_handle, header=None, delim_whitespace=True,
-                     names=names).head(len(dates))
+                     names=names,
+                     usecols=range(len(names))).head(len(dates))
     ds.index = dates
     return ds
 
-- 
2.43.0


From 8cb3c61bec6e9872e21060291b6385131602326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 31/38] fix: end the workers of a failed run before it returns

Threads that were still computing when a run failed went on to write into
the output of a later run of the same process, while that was set up.
---
 metsim/metsim.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 1c211b1..40bd415 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -39,6 +39,7 @@ import warnings
 import time as tm
 from collections import OrderedDict
 from collections.abc import Iterable
+from concurrent.futures import ThreadPoolExecutor
 from getpass import getuser
 
 import numpy as np
@@ -359,22 +360,33 @@ class MetSim(object):
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
                         for dslice in self.slices]
-        persisted = dask.persist(delayed_objs, num_workers=self.params['num_workers'])
-        self.progress_bar(persisted)
-        dask.compute(persisted)
-        if lock_manager:
-            lock_manager.shutdown()
-        self.logger.info('Cleaning up...')
-        self.domain.close()
-        self.met_data.close()
+        compute_kwargs = {'num_workers': self.params['num_workers']}
+        pool = None
+        if self.params['scheduler'] in ['threading', 'threads']:
+            pool = ThreadPoolExecutor(self.params['num_workers'])
+            compute_kwargs['pool'] = pool
         try:
-            self._client.cluster.close()
-            self._client.close()
-            if self.params['verbose'] == logging.DEBUG:
-                print()
-                print('closed dask cluster/client')
-        except Exception:
-            pass
+            persisted = dask.persist(delayed_objs, **compute_kwargs)
+            self.progress_bar(persisted)
+            dask.compute(persisted)
+        finally:
+            # No worker may outlive a failed run, it would write into the
+            # output of a later one
+            if pool:
+                pool.shutdown()
+            if lock_manager:
+                lock_manager.shutdown()
+            self.logger.info('Cleaning up...')
+            self.domain.close()
+            self.met_data.close()
+            try:
+                self._client.cluster.close()
+                self._client.close()
+                if self.params['verbose'] == logging.DEBUG:
+                    print()
+                    print('closed dask cluster/client')
+            except Exception:
+                pass
 
     def load_inputs(self, close=True):
         self._domain = self.domain.load()
-- 
2.43.0


From 13e226020b5657b7136a3401b0d8e3575980c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 32/38] fix: let workers of distributed schedulers read
 forcings of several files

Inputs made of several files are dask arrays; a worker of a distributed
cluster tried to load them with a scheduler it has no client for.
---
 metsim/metsim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 40bd415..4772b34 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -875,7 +875,9 @@ def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
     with WORKER_IO_LOCK:
         ms = MetSim(params, domain_slice=domain_slice)
-        ms.load_inputs()
+        # Workers read their inputs by themselves, whatever scheduler runs them
+        with dask.config.set(scheduler='synchronous'):
+            ms.load_inputs()
     ms.run_slice()
     with WORKER_IO_LOCK:
         ms.write_chunk(locks=write_locks)
-- 
2.43.0


From c6945acdec2ab1baba6c5f0c7934a32ca311ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 33/38] fix: shift UTC output by the exact longitude

The quotient longitude / 360 loses a bit, so that the shift of longitudes that
are whole minutes of time (e.g. -92.5) was truncated to one minute less.
---
 metsim/disaggregate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 1694329..73b50f0 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -183,8 +183,8 @@ def set_min_max_hour(tiny_rad_fract: np.ndarray, yday: np.ndarray, daylength: np
 
     if params['utc_offset']:
         # rad_fract_per_day = int(cnst.SEC_PER_DAY/cnst.SW_RAD_DT)
-        utc_offset = int(((params.get("lon", 0) - params.get("theta_s", 0)) /
-                          cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        utc_offset = int((params.get("lon", 0) - params.get("theta_s", 0)) *
+                         cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         rise_times -= utc_offset
         set_times -= utc_offset
 
@@ -350,7 +350,7 @@ def prec(prec: pd.Series, t_min: pd.Series, ts: float, params: dict,
         P_return = prec_UNIFORM(prec)
 
     if params['utc_offset']:
-        offset = int(((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY))
+        offset = int(params["lon"] * cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         P_return = np.roll(P_return, -offset)
     P_return = np.sum(P_return.reshape(-1, int(ts)), axis=1).flatten()
     return P_return
@@ -377,7 +377,7 @@ def wind(wind: np.array, ts: int, params: dict) -> np.array:
     """
     sd_wind = np.repeat(wind, cnst.MIN_PER_DAY)
     if params['utc_offset']:
-        offset = int((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        offset = int(params["lon"] * cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         sd_wind = np.roll(sd_wind, -offset)
 
     sd_wind = np.mean(sd_wind.reshape(-1, int(ts)), axis=1).flatten()
@@ -612,7 +612,7 @@ def tskc(tskc: np.array, ts: int, params: dict) -> np.array:
     """
     sd_tskc = np.repeat(tskc, cnst.MIN_PER_DAY)
     if params['utc_offset']:
-        offset = int((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        offset = int(params["lon"] * cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         sd_tskc = np.roll(sd_tskc, -offset)
 
     sd_tskc = np.mean(sd_tskc.reshape(-1, int(ts)), axis=-1).flatten()
@@ -656,7 +656,7 @@ def shortwave(sw_rad: np.array, daylength: np.array, day_of_year: np.array,
     rad_fract_per_day = int(cnst.SEC_PER_DAY / cnst.SW_RAD_DT)
     tmp_rad = np.repeat(tmp_rad, rad_fract_per_day)
     if params['utc_offset']:
-        utc_offset = int((params['lon'] / cnst.DEG_PER_REV) * rad_fract_per_day)
+        utc_offset = int(params['lon'] * rad_fract_per_day / cnst.DEG_PER_REV)
         tiny_rad_fract = np.roll(tiny_rad_fract.flatten(), -utc_offset)
         tmp_rad = np.roll(tmp_rad.flatten(), -utc_offset)
         tiny_rad_fract = tiny_rad_fract.flatten()
-- 
2.43.0


From 4c6e1d8f69b7bb51b268a1903d5cc8ad0dd8094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 34/38] fix: accept every boolean spelling of INI files

---
 metsim/io.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index eb2864b..43eb5b6 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -138,11 +138,8 @@ def read_ini_config(config_file, opts):
 
     # Ensure that parameters with boolean values are correctly recorded
     for bool_param in ['utc_offset', 'period_ending']:
-        if (bool_param in conf.keys()
-            and conf[bool_param].strip().lower() == 'true'):
-            conf[bool_param] = True
-        else:
-            conf[bool_param] = False
+        conf[bool_param] = config.getboolean(
+            'MetSim', bool_param, fallback=False)
 
     # Update the full configuration
     conf.update({"calendar": conf.get('calendar', 'standard'),
-- 
2.43.0


From 61a86e599413870ca18b3257d39f332fb107b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 35/38] fix: run when the command line tool is started as
 module or file

The name imported from the package replaced __name__, so
'python -m metsim.cli.ms' did nothing and reported success.
---
 metsim/cli/ms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/cli/ms.py b/metsim/cli/ms.py
index ffb3ff1..f8498a7 100755
--- a/metsim/cli/ms.py
+++ b/metsim/cli/ms.py
@@ -26,7 +26,7 @@ import os
 import sys
 from collections import OrderedDict
 from configparser import ConfigParser
-from metsim import __name__, __version__, io
+from metsim import __name__ as package, __version__, io
 
 
 def _is_valid_file(parser, arg):
@@ -49,7 +49,7 @@ def parse(args):
     parser.add_argument('-v', '--verbose', action='store_true',
                         help='Increase the verbosity of MetSim')
     parser.add_argument('--version', action='version',
-                        version='{} {}'.format(__name__, __version__),
+                        version='{} {}'.format(package, __version__),
                         help='Name and version number')
     return parser.parse_args(args)
 
-- 
2.43.0


From 67eeade77cc4e403eb220a181916dff6501ef76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 36/38] fix: keep the type of coordinates in output files

Labels of unsigned or short integers were written in the output precision
and lost digits; labels that are text made the run fail.
---
 metsim/metsim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 4772b34..babb9c3 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -427,12 +427,11 @@ class MetSim(object):
                 units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
-            dtype_map = {'float64': 'f8', 'float32': 'f4',
-                         'int64': 'i8', 'int32': 'i4'}
             for dim in self.domain['mask'].dims:
                 dim_vals = self.domain[dim].values
-                dim_dtype = dtype_map.get(
-                    str(dim_vals.dtype), self.params['out_precision'])
+                # keep the type, labels may have more digits than the output
+                dim_dtype = (dim_vals.dtype if dim_vals.dtype.kind in 'iuf'
+                             else str)
                 dim_var = ncout.createVariable(dim, dim_dtype, (dim, ))
                 dim_var[:] = dim_vals
 
-- 
2.43.0


From ccf58949eb9f80f4ea1c0c59ffd54adc4b79db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 37/38] fix: recognise YAML files whatever section comes first

A YAML configuration was only recognised when MetSim was its first section,
otherwise it was parsed as INI and failed.
---
 metsim/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 43eb5b6..42b8dcf 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -54,7 +54,8 @@ def check_config_type(config_file):
     line = line.split('#')[0].strip()
     if line == '[MetSim]':
         return 'ini'
-    if line == 'MetSim:':
+    # The sections may come in any order
+    if line.endswith(':') or line == '---':
         return 'yaml'
     # fallback
     return 'ini'
-- 
2.43.0


From 19ebce92af2dd90a21b7fee7742ddd8288a5b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 38/38] fix: select the variables of in-memory data before
 renaming them

---
 metsim/io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 42b8dcf..c333c34 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -340,11 +340,9 @@ def read_data(data_handle, domain=None, is_worker=False,
               start=None, stop=None, calendar='standard',
               var_dict=None) -> xr.Dataset:
     """Read data directly from an xarray dataset"""
-    varlist = list(data_handle.keys())
     if var_dict is not None:
-        data_handle = data_handle.rename(var_dict)
-        varlist = list(var_dict.values())
-    data_handle = data_handle[varlist]
+        # Select first, others may have the names these will get
+        data_handle = data_handle[list(var_dict.keys())].rename(var_dict)
 
     if domain is not None:
         data_handle = _select_cells(data_handle, domain)
-- 
2.43.0

