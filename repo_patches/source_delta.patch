From d9d10295fc2e37af76c29baafb4d2a0071a15ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 01/23] fix: air pressure in hPa is ten times its value in kPa

---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..3a0fbda 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -36,7 +36,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From cf7e466e14786d14028b13b6e5bca7927f473b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 02/23] fix: write chunks that split only some of the domain
 dimensions

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..c8e03e0 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -449,7 +449,8 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None))
+                            for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From 5813bb405dfe3c96cf522b14f93441f130c43425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 03/23] fix: take storm parameters from the month of each day

---
 metsim/metsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index c8e03e0..5544b91 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -279,8 +279,9 @@ class MetSim(object):
         self.met_data[name] = self.met_data['prec'].copy()
         months = self.met_data['time'].dt.month
         for m in range(12):
-            param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            param = self.domain[name].isel(month=m)
+            locations = {
+                'time': self.met_data['time'].isel(time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From e9632f3fe7520e9b2971daa39c3068369747ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 04/23] fix: read as many binary records as there are declared
 variables

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..cce2d20 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -338,7 +338,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From c314dee066610aa2803df2742444977ec4195f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 05/23] fix: keep the vapor pressure extended at the record
 ends below saturation

---
 metsim/disaggregate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..4a7e45c 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -99,6 +99,10 @@ def disaggregate(df_daily: pd.DataFrame, params: dict,
     df_disagg['vapor_pressure'] = (df_disagg['vapor_pressure']
                                    .fillna(method='ffill')
                                    .fillna(method='bfill'))
+    # The values filled in at the ends can exceed saturation there
+    df_disagg['vapor_pressure'] = np.minimum(
+        df_disagg['vapor_pressure'].values,
+        svp(df_disagg['temp'].values) / cnst.MBAR_PER_BAR)
 
     df_disagg['rel_humid'] = relative_humidity(
         df_disagg['vapor_pressure'].values, df_disagg['temp'].values)
-- 
2.43.0


From 934f8051e110625d7952113d1a5dd343cf8217cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 06/23] fix: no division by zero on days the sun barely rises

---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index 815654a..f6cd541 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -269,7 +269,7 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
 
-        if daylength[i]:
+        if daylength[i] and sum_flat_potrad > 0:
             # Transmittance and potential radiation
             # averaged over daylength
             tt_max0[i] = sum_trans / sum_flat_potrad
-- 
2.43.0


From cbb046b831e01936efa4d683824813ffe63e450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 07/23] fix: write passed through daily shortwave as it was
 supplied

---
 metsim/metsim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 5544b91..ebdd4b9 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -779,8 +779,11 @@ def wrap_run_cell(func: callable, params: dict,
             start, stop, freq='{}T'.format(params['time_step']),
             calendar=params['calendar'])
     else:
-        # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # convert srad to daily average flux from daytime flux, except for
+        # passthrough shortwave, which is an average over the entire day
+        if (params['method'] == 'mtclim' or
+                params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From cce35b204b571998fad99f4b5099e5c9d5b9a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 08/23] fix: give t_day, an accepted output variable, metadata
 and units

---
 metsim/metsim.py | 4 ++++
 metsim/units.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index ebdd4b9..b1e732e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -91,6 +91,10 @@ attrs = {'pet': {'units': 'mm timestep-1',
          't_min': {'units': 'C', 'long_name': 'minimum daily air temperature',
                    'standard_name': 'daily_minimum_air_temperature',
                    'missing_value': np.nan, 'fill_value': np.nan},
+         't_day': {'units': 'C',
+                   'long_name': 'daylight average air temperature',
+                   'standard_name': 'daylight_average_air_temperature',
+                   'missing_value': np.nan, 'fill_value': np.nan},
          'temp': {'units': 'C', 'long_name': 'air temperature',
                   'standard_name': 'air_temperature',
                   'missing_value': np.nan, 'fill_value': np.nan},
diff --git a/metsim/units.py b/metsim/units.py
index 3a0fbda..65cb285 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -25,6 +25,10 @@ converters = {
             'C': lambda x, ts: x,
             'K': lambda x, ts: x + 273.15,
             },
+        't_day': {
+            'C': lambda x, ts: x,
+            'K': lambda x, ts: x + 273.15,
+            },
         'temp': {
             'C': lambda x, ts: x,
             'K': lambda x, ts: x + 273.15,
-- 
2.43.0


From 3c92e12c6b02d6d4515715e0a85a83d6f8e4d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 09/23] fix: report forcing files of the domain that cannot be
 read

---
 metsim/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index cce2d20..c3f7475 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -239,13 +239,14 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
             lat, lon = float(lat), float(lon)
             if not domain['mask'].sel(lat=lat, lon=lon).values > 0:
                 continue
-            ds = read_funcs[params['forcing_fmt']](
-                job, start=params['start'], stop=params['stop'],
-                calendar=params['calendar'], var_dict=params['forcing_vars'])
-            for var in params['forcing_vars'].keys():
-                met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
         except (ValueError, KeyError):
+            # Not the file of a cell in the domain
             continue
+        ds = read_funcs[params['forcing_fmt']](
+            job, start=params['start'], stop=params['stop'],
+            calendar=params['calendar'], var_dict=params['forcing_vars'])
+        for var in params['forcing_vars'].keys():
+            met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
     return met_data
 
 
-- 
2.43.0


From da81290338693736019d476142d291941f9184ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 10/23] fix: create the output directory if it does not exist

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index b1e732e..5b24c82 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -334,6 +334,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(self.params['out_dir'], exist_ok=True)
         write_locks = {}
         for times in self._times:
             filename = self._get_output_filename(times)
-- 
2.43.0


From e6493bb53560131eaa674cebdc97c967c286e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 11/23] fix: accept start and stop given as dates

---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 5b24c82..8674aa9 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -256,6 +256,9 @@ class MetSim(object):
                     self.params[p] = datetime(year, month, day)
                 else:
                     self.params[p] = pd.to_datetime(self.params[p])
+            elif not isinstance(self.params[p], datetime):
+                # dates as they come out of a yaml file
+                self.params[p] = pd.to_datetime(self.params[p])
 
         # update calendar from input data (fall back to params version)
         self.params['calendar'] = self.met_data['time'].encoding.get(
-- 
2.43.0


From f4a0f2230cc5a998be70ac57738dbf16977dedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 12/23] fix: refuse time steps that are not positive

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 8674aa9..88ce329 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -648,7 +648,8 @@ class MetSim(object):
                 errs.append("Cannot have empty value for {}".format(each))
 
         # Make sure time step divides evenly into a day
-        if (cnst.MIN_PER_DAY % int(self.params.get('time_step', -1)) or
+        if (int(self.params.get('time_step', -1)) <= 0 or
+                cnst.MIN_PER_DAY % int(self.params.get('time_step', -1)) or
                 (int(self.params['time_step']) > (6 * cnst.MIN_PER_HOUR) and
                  int(self.params['time_step']) != cnst.MIN_PER_DAY)):
             errs.append("Time step must be evenly divisible into 1440 "
-- 
2.43.0


From 53f286329f57f6b53b90555ce429255bfba5c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 13/23] fix: accept the longwave options in any capitalization

---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 88ce329..4e9bccc 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -687,7 +687,11 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            opt = self.params.get(k, None)
+            if k in ['lw_cloud', 'lw_type']:
+                # Capitalization does not matter
+                opt = str(opt).lower()
+            if not opt in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From 1742da056f0d2d92528ac6678dbc1ba689226bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 14/23] fix: give output files that hold part of a day
 different names

---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 4e9bccc..17bc6b5 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -700,6 +700,9 @@ class MetSim(object):
 
     def get_nc_output_suffix(self, times):
         s, e = times[[0, -1]]
+        if len(times) * int(self.params['time_step']) < cnst.MIN_PER_DAY:
+            # Several files per day need the time of day to tell them apart
+            return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
         return template.format(s.year, s.month, s.day,
                                e.year, e.month, e.day,)
-- 
2.43.0


From d4e1864e3c44580b0e2edb6e0f8eef03f309dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 15/23] fix: do not leak the parameters of a run into later
 runs

---
 metsim/metsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 17bc6b5..f9c6ae4 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -184,7 +184,10 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
-        self.params.update(params)
+        # Keep the defaults and the given dictionary as they are
+        self.params = {**self.params, **params}
+        self.params['out_vars'] = {
+            k: dict(v) for k, v in self.params['out_vars'].items()}
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
-- 
2.43.0


From 8a7324da65a1563ca94e843cfcb6eb7780494eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 16/23] fix: do not leak the output names of a configuration
 into later ones

---
 metsim/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index c3f7475..3fc5ffa 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -147,7 +147,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -155,7 +155,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
-- 
2.43.0


From c8073c09f588e2a73f3ebee788e94e9364e8dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 17/23] fix: do not leak the metadata of a run into later runs

---
 metsim/metsim.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index f9c6ae4..609c269 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -183,6 +183,7 @@ class MetSim(object):
         self._state = None
         self._client = None
         self._domain_slice = domain_slice
+        self.attrs = {k: OrderedDict(v) for k, v in attrs.items()}
         self.progress_bar = ProgressBar()
         # Keep the defaults and the given dictionary as they are
         self.params = {**self.params, **params}
@@ -237,7 +238,7 @@ class MetSim(object):
         for k, v in out_vars.items():
             if 'units' in v.keys():
                 if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
+                    self.attrs[k]['units'] = v['units']
                 else:
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
@@ -277,11 +278,11 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                              'long_name': 'UTC time',
                              'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                              'long_name': 'local time at grid location',
                              'standard_name': 'local_time'}
 
@@ -399,7 +400,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -433,18 +434,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -596,8 +597,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
-- 
2.43.0


From 428999055f05b9068775c5609021b39e15234699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 18/23] fix: label a variable with the units it is written in

---
 metsim/metsim.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 609c269..78a9f88 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -237,9 +237,7 @@ class MetSim(object):
     def _update_unit_attrs(self, out_vars):
         for k, v in out_vars.items():
             if 'units' in v.keys():
-                if v['units'] in converters[k].keys():
-                    self.attrs[k]['units'] = v['units']
-                else:
+                if v['units'] not in converters[k].keys():
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
                         f' We will use the default units of'
@@ -247,6 +245,7 @@ class MetSim(object):
                     v['units'] = available_outputs[k]['units']
             else:
                 v['units'] = available_outputs[k]['units']
+            self.attrs[k]['units'] = v['units']
 
     def _validate_force_times(self, force_times):
         for p, i in [('start', 0), ('stop', -1)]:
-- 
2.43.0


From 7403f7a2d5df8d62ea7a87bd58cd18b05d429104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 19/23] fix: read all the forcings when start or stop is
 'forcing'

---
 metsim/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 3fc5ffa..d9d44bb 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -204,9 +204,12 @@ def process_nc(params: dict, domain: xr.Dataset) -> xr.Dataset:
         "netcdf": read_netcdf,
         "data": read_data
     }
+    # 'forcing' stands for the first or last day of the forcings
+    start, stop = [None if isinstance(day, str) and day == 'forcing' else day
+                   for day in (params['start'], params['stop'])]
     return read_funcs[params['forcing_fmt']](
         params['forcing'], domain=domain,
-        start=params['start'], stop=params['stop'],
+        start=start, stop=stop,
         calendar=params['calendar'], var_dict=params.get('forcing_vars', None))
 
 
@@ -314,7 +317,7 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
-    if start is not None and stop is not None:
+    if start is not None or stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
         data_handle['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
-- 
2.43.0


From 99077624a22252cabe3bc285ba7ee7d0886a80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 20/23] fix: match data given as a dataset to the domain by
 coordinate

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index d9d44bb..9a0051a 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -317,6 +317,11 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if domain is not None:
+        data_handle = data_handle.sel({k: domain[k]
+                                       for k in list(domain.dims.keys())
+                                       if k in list(data_handle.dims.keys())})
+
     if start is not None or stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
-- 
2.43.0


From 9bc4cf7cfb343758b034c260703aa8a7ce429f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 21/23] fix: binary forcing variables of a yaml file keep their
 declared scales

---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 9a0051a..6cca2f2 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -74,7 +74,9 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf['forcing_fmt'] != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From 3a6afb3c688a759983e864e23a28a1fe4c52a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 22/23] fix: undeclared variables of given data may have the
 names of model variables

---
 metsim/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 6cca2f2..42b6f5e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -315,9 +315,11 @@ def read_data(data_handle, domain=None, is_worker=False,
     """Read data directly from an xarray dataset"""
     varlist = list(data_handle.keys())
     if var_dict is not None:
-        data_handle = data_handle.rename(var_dict)
-        varlist = list(var_dict.values())
+        varlist = list(var_dict.keys())
     data_handle = data_handle[varlist]
+    # Other variables may have the names that the declared ones get
+    if var_dict is not None:
+        data_handle = data_handle.rename(var_dict)
 
     if domain is not None:
         data_handle = data_handle.sel({k: domain[k]
-- 
2.43.0


From 8112b658fc53dfbf75626cb30b918986c079e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 23/23] fix: constant variables keep their value when the
 forcing data are integers

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 78a9f88..a07b499 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -315,7 +315,8 @@ class MetSim(object):
                 da_template = self._met_data[list(self._met_data)[0]]
                 for var in constant_vars.keys():
                     self._met_data[var] = xr.full_like(da_template,
-                                                       float(constant_vars[var]))
+                                                       float(constant_vars[var]),
+                                                       dtype=float)
 
             self._validate_force_times(force_times=self._met_data['time'])
         return self._met_data
-- 
2.43.0

