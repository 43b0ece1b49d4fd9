From dead13fa4804c012a3fe636fed87e5c6b13b9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 01/37] fix: undefined name in the error message for
 unsupported shallow water boundary data

---
 thetis/shallowwater_eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index cec728c..03dc4a8 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -268,7 +268,7 @@ class ShallowWaterTerm(Term):
         if eta_ext is None or uv_ext is None:
             raise Exception('Unsupported bnd type, one of "elev", "uv", "un", '
                             'or "flux" must be defined on boundary '
-                            f'{bnd_marker}: {funcs}')
+                            f'{bnd_id}: {funcs}')
         return eta_ext, uv_ext
 
     def impose_dynamic_bnd(self, bnd_funcs, bnd_id):
-- 
2.43.0


From 949b6370e04dd4d72f7869e7592ea0be95f305e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 02/37] fix: reject invalid shallow water boundary tags also
 after a valid one

---
 thetis/shallowwater_eq.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index 03dc4a8..f0fe643 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -291,9 +291,7 @@ class ShallowWaterTerm(Term):
             if k not in all_tags:
                 raise Exception(f'Invalid boundary tag "{k}" '
                                 f'specified on boundary {bnd_id}')
-            if k in open_tags:
-                return True
-        return False
+        return any(k in open_tags for k in bnd_funcs.keys())
 
 
 class ShallowWaterMomentumTerm(ShallowWaterTerm):
-- 
2.43.0


From c65fc97914a294536d8fe36bb4bfe412c4be0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 03/37] fix: apply the tracer velocity correction factor to a
 prescribed normal velocity

---
 thetis/tracer_eq_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 02464c7..3db3ee0 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -108,7 +108,7 @@ class TracerTerm(Term):
             area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = self.corr_factor * funcs['flux']/area*self.normal
         elif 'un' in funcs:
-            uv_ext = funcs['un']*self.normal
+            uv_ext = self.corr_factor * funcs['un']*self.normal
         else:
             uv_ext = uv_in
 
-- 
2.43.0


From ae2de6e3507bbbc24e72f96b7a919353ef3bcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 04/37] fix: SedimentModel.update without suspended sediment

---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 02328cb..f688dd5 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -413,5 +413,5 @@ class SedimentModel(object):
                 # slope effect angle correction due to gravity
                 self.stress.interpolate(self.rhow*Constant(0.5)*self.qfc*self.unorm)
 
-        if self.use_advective_velocity_correction:
+        if self.solve_suspended_sediment and self.use_advective_velocity_correction:
             self.correction_factor_model.update()
-- 
2.43.0


From 26481b79b9a3905d8d4f3b80fc8fa6269884d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 05/37] fix: DIRKGeneric stage with zero first Butcher
 coefficient

u += ... incremented the solution_old Function in place when a[i][0] == 0
(ESDIRKMidpoint, IMEXMidpoint), dropping the implicit part of the stage.
---
 thetis/rungekutta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index 85f58c2..531e689 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -497,7 +497,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                     if j == 0:
                         u = u_old + self.a[i][j]*self.dt_const*self.k[j]
                     else:
-                        u += self.a[i][j]*self.dt_const*self.k[j]
+                        # NOTE u may be the u_old Function itself, do not increment in-place
+                        u = u + self.a[i][j]*self.dt_const*self.k[j]
                 self.F.append(-inner(self.k[i], test)*dx
                               + self.equation.residual(terms_to_add, u, u_nl, fields, fields, bnd_conditions))
         else:
-- 
2.43.0


From 05de8974d3a92fc7ebf04b240761f89a160534ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 06/37] fix: pass sediment and Exner integrators also when
 tracers are solved

---
 thetis/solver2d.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ef5a31b..8fd926c 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -680,20 +680,16 @@ class FlowSolver2d(FrozenClass):
                 weakref.proxy(self), steppers[self.options.swe_timestepper_type],
                 steppers[self.options.nh_model_options.free_surface_timestepper_type]
             )
-        elif self.solve_tracer:
+        elif self.solve_tracer or self.options.sediment_model_options.solve_suspended_sediment \
+                or self.options.sediment_model_options.solve_exner:
+            integrators = {
+                'shallow_water': steppers[self.options.swe_timestepper_type],
+                'tracer': steppers[self.options.tracer_timestepper_type],
+                'sediment': steppers[self.options.sediment_model_options.sediment_timestepper_type],
+                'exner': steppers[self.options.sediment_model_options.exner_timestepper_type],
+            }
             self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
-                weakref.proxy(self), {
-                    'shallow_water': steppers[self.options.swe_timestepper_type],
-                    'tracer': steppers[self.options.tracer_timestepper_type],
-                },
-            )
-        elif self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
-            self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
-                weakref.proxy(self), {
-                    'shallow_water': steppers[self.options.swe_timestepper_type],
-                    'sediment': steppers[self.options.sediment_model_options.sediment_timestepper_type],
-                    'exner': steppers[self.options.sediment_model_options.exner_timestepper_type],
-                },
+                weakref.proxy(self), integrators,
             )
         else:
             self.timestepper = self.get_swe_timestepper(steppers[self.options.swe_timestepper_type])
-- 
2.43.0


From cab8d09415e33cd4e70e3f220eb5207e37abb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 07/37] fix: non-hydrostatic stepping without free surface
 correction

---
 thetis/coupled_timeintegrator_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/coupled_timeintegrator_2d.py b/thetis/coupled_timeintegrator_2d.py
index a5f10e0..a0b355b 100644
--- a/thetis/coupled_timeintegrator_2d.py
+++ b/thetis/coupled_timeintegrator_2d.py
@@ -180,7 +180,8 @@ class NonHydrostaticTimeIntegrator2D(CoupledTimeIntegrator2D):
             self.elev_old = Function(self.fields.elev_2d)
         self.serial_advancing = not hasattr(self.timesteppers.swe2d, 'n_stages') \
             or self.options.swe_timestepper_type == 'SSPIMEX'
-        self.multi_stages_fs = hasattr(self.timesteppers.fs2d, 'n_stages') \
+        self.multi_stages_fs = self.nh_options.update_free_surface \
+            and hasattr(self.timesteppers.fs2d, 'n_stages') \
             and self.nh_options.free_surface_timestepper_type != 'BackwardEuler'
         if self.multi_stages_fs:
             msg = 'The multi-stage type of Shallow Water and ' \
-- 
2.43.0


From bff2a7fa48c7ccc343e395dd19a9aa9f4a44ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 08/37] fix: initial simulation time is in seconds when the end
 date is converted to an end time

---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 7083b8e..b37038e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1293,7 +1293,7 @@ class FlowSolver(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 8fd926c..ca51c0a 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -1086,7 +1086,7 @@ class FlowSolver2d(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
-- 
2.43.0


From 283237c93dbccd2c044cc8a3964fd4c4099d1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 09/37] fix: load_state of a checkpoint without time metadata

---
 thetis/solver.py   | 4 +++-
 thetis/solver2d.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index b37038e..5fe07ed 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1106,7 +1106,9 @@ class FlowSolver(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
         self.iteration = iteration
         self.simulation_time = t
 
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ca51c0a..b09b9a7 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -892,7 +892,9 @@ class FlowSolver2d(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
             if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
                 initial_time = metadata['initial_time_iso']
                 if isinstance(initial_time, str):
-- 
2.43.0


From 396d8d133ff9e72e70afac3760749c16aa838154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 10/37] fix: grid interpolation at points on an interior edge
 of the triangulation

The enclosing simplex is found within a tolerance, so a weight may be negative by rounding; points are outside only if
no simplex was found.
---
 thetis/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 8c6b924..db00438 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -200,7 +200,7 @@ class GridInterpolator(object):
             self.vtx = vertices
             self.wts = numpy.hstack((bary, 1 - bary.sum(axis=1, keepdims=True)))
             self.outside = numpy.any(~numpy.isfinite(self.wts), axis=1)
-            self.outside += numpy.any(self.wts < 0, axis=1)
+            self.outside += simplex < 0
             self.outside = numpy.nonzero(self.outside)[0]
             self.fill_nearest *= len(self.outside) > 0
             if self.fill_nearest:
-- 
2.43.0


From d69ff913bd8b4956781b3f1e8a0947fc80270bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 11/37] fix: check the dimension of the longitude array of
 netCDF grids

---
 thetis/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index db00438..e1259d4 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -461,7 +461,7 @@ class NetCDFLatLonInterpolator2d(SpatialInterpolator2d):
                 grid_lat = ncfile[name_lat][:]
                 grid_lon = ncfile[name_lon][:]
                 lat_is_1d = len(grid_lat.shape) == 1
-                lon_is_1d = len(grid_lat.shape) == 1
+                lon_is_1d = len(grid_lon.shape) == 1
                 assert lat_is_1d == lon_is_1d, 'Unsupported lat lon grid'
                 if lat_is_1d and lon_is_1d:
                     grid_lon, grid_lat = numpy.meshgrid(grid_lon, grid_lat)
-- 
2.43.0


From bd53cf23cf403bdd469275db85fdeec9ddee5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 12/37] fix: ATMInterpolator reads the time variable of WRF/NAM
 files

---
 thetis/forcing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index fefce4c..80a397b 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -267,7 +267,7 @@ class ATMInterpolator(AtmosphericForcingInterpolator):
                          ncfile, init_date,
                          vect_rotator,
                          east_wind_var_name="uwind", north_wind_var_name="vwind",
-                         pressure_var_name="prmsl",
+                         pressure_var_name="prmsl", time_var_name="time",
                          temporal_interpolator=ATMNetCDFTime,
                          fill_mode=fill_mode, fill_value=fill_value,
                          verbose=verbose)
-- 
2.43.0


From 2368418fb9b85caf7cf52935d216b295d9a17a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 13/37] fix: tidal velocity is set at the boundary nodes only,
 and is zero where data are missing

---
 thetis/forcing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index 80a397b..57a5447 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -1075,12 +1075,12 @@ class TidalBoundaryForcing(ABC):
                     lon_vel[node] = self.tnciu.get_val(point, allow_extrapolation=True)
                     lat_vel[node] = self.tnciv.get_val(point, allow_extrapolation=True)
                 except uptide.netcdf_reader.CoordinateError:
-                    uv_data[node, 0] = 0
-                    uv_data[node, 1] = 0
+                    lon_vel[node] = 0
+                    lat_vel[node] = 0
         if self.compute_velocity:
             uv = self.vect_rotator(lon_vel, lat_vel)
-            uv_data[:, 0] = uv[0]
-            uv_data[:, 1] = uv[1]
+            uv_data[self.nodes, 0] = uv[0][self.nodes]
+            uv_data[self.nodes, 1] = uv[1][self.nodes]
 
 
 class TPXOTidalBoundaryForcing(TidalBoundaryForcing):
-- 
2.43.0


From 48f934a6d56df6dd0f80c8d65ba3c56872afc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 14/37] fix: nearest neighbour filling of netCDF grids
 considers the whole grid

The subset of nodes read from the file did not contain the nearest source point of targets outside the grid.
---
 thetis/interpolation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index e1259d4..853d385 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -316,6 +316,13 @@ def _get_subset_nodes(grid_x, grid_y, target_x, target_y):
     simplex = tri.find_simplex(target_xy)
     vertices = numpy.take(tri.simplices, simplex, axis=0)
     nodes = numpy.unique(vertices.ravel())
+    outside = simplex < 0
+    if numpy.any(outside):
+        # include nearest nodes of the points outside the grid
+        # needed for nearest neighbor filling
+        from scipy.spatial import cKDTree
+        dist, ix = cKDTree(grid_xy).query(target_xy[outside])
+        nodes = numpy.unique(numpy.concatenate((nodes, ix)))
     nodes_x, nodes_y = numpy.unravel_index(nodes, orig_shape)
 
     # x and y bounds for reading a subset of the netcdf data
-- 
2.43.0


From 5b6ce5fe7aad669621888a65016e6a0b71ebb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 15/37] fix: callback end time zero is not infinity

---
 thetis/callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 09ba053..c43ffbe 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -202,8 +202,8 @@ class DiagnosticCallback(ABC):
         self.include_time = include_time
         self._create_new_file = True
         self._hdf5_initialized = False
-        self.start_time = start_time or -numpy.inf
-        self.end_time = end_time or numpy.inf
+        self.start_time = -numpy.inf if start_time is None else start_time
+        self.end_time = numpy.inf if end_time is None else end_time
 
         init_date = self.solver_obj.options.simulation_initial_date
         if init_date is not None and include_time:
-- 
2.43.0


From 4ae5a94b967a046f8178822bce48c6dd36338bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 16/37] fix: diagnostics of a run continued in another
 directory start a new file

---
 thetis/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index c43ffbe..3528833 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -88,7 +88,7 @@ class DiagnosticHDF5(object):
         self.nvars = len(varnames)
         self.array_dim = array_dim
         self.include_time = include_time
-        if comm.rank == 0 and new_file:
+        if comm.rank == 0 and (new_file or not os.path.isfile(filename)):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
-- 
2.43.0


From 101050ee622c60d40c46abbdffd0b8e924eb0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 17/37] fix: HDF5 diagnostics whose first entry has a nonzero
 export index

---
 thetis/callback.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 3528833..93f45b8 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -145,9 +145,12 @@ class DiagnosticHDF5(object):
             with h5py.File(self.filename, 'a') as hdf5file:
                 if index is not None:
                     nentries = self._nentries(hdf5file)
-                    assert index <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(index, nentries, self.filename)
-                    expand_required = index == nentries
-                    ix = index
+                    # the first entry can have a nonzero index, e.g. in a continued run
+                    if nentries == 0:
+                        hdf5file.attrs['first_index'] = index
+                    ix = index - hdf5file.attrs.get('first_index', 0)
+                    assert 0 <= ix <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(ix, nentries, self.filename)
+                    expand_required = ix == nentries
                 if index is None or expand_required:
                     self._expand(hdf5file)
                     ix = self._nentries(hdf5file) - 1
-- 
2.43.0


From 8451cd6b778404908806d5ef2e5a235b7ad2e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 18/37] fix: do not duplicate the suffix of vtk file names

---
 thetis/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 4eb5001..bd218ce 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -87,7 +87,7 @@ class VTKExporter(ExporterBase):
         suffix = '.pvd'
         path = os.path.join(outputdir, filename)
         # append suffix if missing
-        if (len(filename) < len(suffix)+1 or filename[:len(suffix)] != suffix):
+        if (len(filename) < len(suffix)+1 or filename[-len(suffix):] != suffix):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
-- 
2.43.0


From f298dc8e4608336b8c740e03f0804d6404fd70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 19/37] fix: export managers do not share their pre-processing
 functions

---
 thetis/exporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index bd218ce..5a6693e 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -262,7 +262,7 @@ class ExportManager(object):
     def __init__(self, outputdir, fields_to_export, functions, field_metadata,
                  export_type='vtk', next_export_ix=0, verbose=False,
                  legacy_mode=False,
-                 preproc_funcs={},
+                 preproc_funcs=None,
                  include_time=False, initial_time=None):
         """
         :arg string outputdir: directory where files are stored
@@ -283,7 +283,7 @@ class ExportManager(object):
         self.functions.update(functions)
         self.field_metadata = field_metadata
         self.verbose = verbose
-        self.preproc_callbacks = preproc_funcs
+        self.preproc_callbacks = {} if preproc_funcs is None else preproc_funcs
         self.include_time = include_time
         self.initial_time = initial_time
         # for each field create an exporter
-- 
2.43.0


From 010d1a9b7c5cb10ce46a6c0df8824026f0036bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 20/37] fix: first export number of a vtk exporter

---
 thetis/exporter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 5a6693e..f9a99c8 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -91,6 +91,7 @@ class VTKExporter(ExporterBase):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
+        self.set_next_export_ix(next_export_ix)
         self.cast_operators = {}
 
     def set_next_export_ix(self, next_export_ix):
-- 
2.43.0


From 62ede9e84c15fe95ba251895732ed21a80e6d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 21/37] fix: AccumulatorCallback uses the time step of the run

---
 thetis/callback.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 93f45b8..73688e1 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -609,14 +609,13 @@ class AccumulatorCallback(DiagnosticCallback):
         kwargs.setdefault('append_to_log', False)
         super(AccumulatorCallback, self).__init__(solver_obj, **kwargs)
         self.scalar_callback = scalar_callback      # Evaluate functional
-        self.dt = solver_obj.options.timestep
         self.integrant = 0.
         self.old_value = None
 
     def __call__(self):
         scalar_value = self.scalar_callback()
         if self.old_value is not None:
-            self.integrant += 0.5 * (self.old_value + scalar_value) * self.dt
+            self.integrant += 0.5 * (self.old_value + scalar_value) * self.solver_obj.dt
         self.old_value = scalar_value
 
         return scalar_value
-- 
2.43.0


From 1e45943f609c0bd875c536430bdf63e841b20c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 22/37] fix: TurbineFunctionalCallback uses the time step of
 the run

---
 thetis/turbines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/thetis/turbines.py b/thetis/turbines.py
index dc96ddd..34232e1 100644
--- a/thetis/turbines.py
+++ b/thetis/turbines.py
@@ -229,7 +229,6 @@ class TurbineFunctionalCallback(DiagnosticCallback):
         super().__init__(solver_obj, array_dim=nfarms, **kwargs)
 
         self.uv, eta = split(solver_obj.fields.solution_2d)
-        self.dt = solver_obj.options.timestep
         self.depth = solver_obj.fields.bathymetry_2d
 
         self.cost = [farm.number_of_turbines() for farm in self.farms]
@@ -246,13 +245,13 @@ class TurbineFunctionalCallback(DiagnosticCallback):
 
     def _evaluate_timestep(self):
         """Perform time integration and return current power and time-averaged power and profit."""
-        self.time_period = self.time_period + self.dt
+        self.time_period = self.time_period + self.solver_obj.dt
         current_power = []
         for i, farm in enumerate(self.farms):
             power = farm.power_output(self.uv, self.depth)
             current_power.append(power)
             self.instantaneous_power[i] = power
-            self.integrated_power[i] += power * self.dt
+            self.integrated_power[i] += power * self.solver_obj.dt
             self.average_power[i] = self.integrated_power[i] / self.time_period
             self.average_profit[i] = self.average_power[i] - self.break_even_wattage[i] * self.cost[i]
         return current_power, self.average_power, self.average_profit
-- 
2.43.0


From cd6e48b1a250278e3cac86028d21d74bfa603dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 23/37] fix: freeze the object again if an unfrozen method
 raises

---
 thetis/utility.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index a6654b8..8567236 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -49,10 +49,11 @@ def unfrozen(method):
     def wrapper(self, *args, **kwargs):
         self._isfrozen = False
         self._unfreezedepth += 1
-        ret = method(self, *args, **kwargs)
-        self._unfreezedepth -= 1
-        self._isfrozen = self._unfreezedepth == 0
-        return ret
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self._unfreezedepth -= 1
+            self._isfrozen = self._unfreezedepth == 0
 
     return wrapper
 
-- 
2.43.0


From 30a68be6873fa111c955d237551272a5a4fa68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 24/37] fix: assign the selector before its paired options when
 updating an option container

---
 thetis/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index f78b86e..b36d335 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -271,7 +271,9 @@ class OptionsBase:
         else:
             assert isinstance(options, traitlets.HasTraits), 'options must be a dict or HasTraits object'
             params_dict = options._trait_values
-        for key in params_dict:
+        # assigning a PairedEnum resets the paired options, thus assign it first
+        traits = self.traits() if isinstance(self, traitlets.HasTraits) else {}
+        for key in sorted(params_dict, key=lambda k: not isinstance(traits.get(k), PairedEnum)):
             self.__setattr__(key, params_dict[key])
 
     def __str__(self):
-- 
2.43.0


From 2437a66ddd8eef619f3475daa2cd5ae8e7b8b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 25/37] fix: do not share nested time integrator options and
 solver parameters between option containers

---
 thetis/configuration.py |  5 +++++
 thetis/options.py       | 12 ++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index b36d335..0486d0d 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -2,6 +2,7 @@
 Utility function and extensions to traitlets used for specifying Thetis options
 """
 import textwrap
+from copy import deepcopy
 import traitlets
 from textwrap import dedent
 from traitlets.config.configurable import Configurable
@@ -222,6 +223,10 @@ class PETScSolverParameters(traitlets.Dict):
     """PETSc solver options dictionary"""
     info_text = 'a PETSc solver options dictionary'
 
+    def make_dynamic_default(self):
+        # default dictionaries may be nested: do not share them between instances
+        return deepcopy(super().make_dynamic_default())
+
     def validate(self, obj, value):
         if isinstance(value, dict):
             return value
diff --git a/thetis/options.py b/thetis/options.py
index 3cf395a..58b371b 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -265,16 +265,16 @@ class ImplicitTracerTimeStepperOptions3d(TimeStepperOptions3d):
 class SSPRKTimeStepperOptions3d(TimeStepperOptions3d):
     """Options for 3d SSPRK coupled time integrator"""
     use_automatic_timestep = Bool(True, help='Set time step automatically based on local CFL conditions.').tag(config=True)
-    swe_options = SWETimeStepperOptions3d()
-    implicit_momentum_options = ImplicitMomentumTimeStepperOptions3d()
-    explicit_momentum_options = ExplicitMomentumTimeStepperOptions3d()
-    implicit_tracer_options = ImplicitTracerTimeStepperOptions3d()
-    explicit_tracer_options = ExplicitTracerTimeStepperOptions3d()
+    swe_options = Instance(SWETimeStepperOptions3d, args=()).tag(config=True)
+    implicit_momentum_options = Instance(ImplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_momentum_options = Instance(ExplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    implicit_tracer_options = Instance(ImplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_tracer_options = Instance(ExplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
 
 
 class LeapFrogTimeStepperOptions3d(SSPRKTimeStepperOptions3d):
     """Options for 3d LeapFrog coupled time integrator"""
-    swe_options = ImplicitSWETimeStepperOptions3d()
+    swe_options = Instance(ImplicitSWETimeStepperOptions3d, args=()).tag(config=True)
 
 
 class TurbulenceModelOptions(FrozenHasTraits):
-- 
2.43.0


From 549ad071730fa684e09f4bd2b79573ac50124fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 26/37] fix: add_tracer_system_2d accepts keyword arguments for
 some of the labels only

---
 thetis/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/options.py b/thetis/options.py
index 58b371b..f657dee 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -1009,7 +1009,7 @@ class ModelOptions2d(CommonModelOptions):
             kwargs = {label: {} for label in labels}
         assert set(kwargs.keys()).issubset(set(labels))
         for label in labels:
-            kwargs[label]['mixed'] = True
+            kwargs[label] = dict(kwargs.get(label, {}), mixed=True)
         self.tracer_fields[','.join(labels)] = function
         if function is not None:
             for label, child in zip(labels, function.subfunctions):
-- 
2.43.0


From 4ee6b8ef27ecdb2fc84e517036afeab68216ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 27/37] fix: vector limiter uses the scalar element of the
 given space

---
 thetis/limiter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index f1cdd80..c55cfcf 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -65,7 +65,9 @@ class VertexBasedP1DGLimiter(VertexBasedLimiter):
         assert_function_space(p1dg_space, ['Discontinuous Lagrange', 'DQ'], 1)
         self.is_vector = p1dg_space.value_size > 1
         if self.is_vector:
-            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), 'DG', 1)
+            # use the same element as the vector space, including the variant
+            scalar_elem = p1dg_space.ufl_element().sub_elements[0]
+            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), scalar_elem)
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_scalar_space)
         else:
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_space)
-- 
2.43.0


From b1cfa9212e7b192526548217ea05e86f31c8cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 28/37] fix: steady-state roots of stability functions without
 quadratic term

---
 thetis/stability_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index d4cfa83..e148bb6 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -172,7 +172,8 @@ class StabilityFunctionBase(ABC):
             a = -self.d5 + self.n2 - (self.d3 - self.n1 + self.nb2)*ri_st - (self.d4 + self.nb1)*ri_st**2
             b = -self.d2 + self.n0 - (self.d1 + self.nb0)*ri_st
             c = -self.d0
-            a_shear = (-b + numpy.sqrt(b**2 - 4*a*c))/2/a
+            # NOTE root in the form that remains valid if a = 0 (e.g. Kantha-Clayson)
+            a_shear = 2*c/(-b - numpy.sqrt(b**2 - 4*a*c))
 
         return a_shear
 
@@ -220,7 +221,8 @@ class StabilityFunctionBase(ABC):
             a = self.d5 - self.n2
             b = self.d2 - self.n0
             c = self.d0
-            a_shear = (-b - numpy.sqrt(b**2 - 4*a*c))/2/a
+            # NOTE root in the form that remains valid if a = 0 (e.g. Kantha-Clayson)
+            a_shear = 2*c/(-b + numpy.sqrt(b**2 - 4*a*c))
             s_m, s_h = self.eval_funcs(a_buoy, a_shear)
             cm0 = s_m**0.25
         else:
-- 
2.43.0


From f6fad8f95125ffa72d92243e2e0ecda1f2285282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 29/37] fix: Kantha-Clayson stability function cannot be
 selected

---
 thetis/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index 300a521..bb179fc 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -421,7 +421,7 @@ class GenericLengthScaleModel(TurbulenceModel):
                      'lim_alpha_buoy': True,
                      'smooth_alpha_buoy_lim': False}
         if stability_function_name == 'Kantha-Clayson':
-            self.stability_func = StabilityFunctionKanthaClayson(**stab_args)
+            self.stability_func = GOTMStabilityFunctionKanthaClayson(**stab_args)
         elif stability_function_name == 'Canuto A':
             self.stability_func = StabilityFunctionCanutoA(**stab_args)
         elif stability_function_name == 'Canuto B':
-- 
2.43.0


From c474ab92403d42a10347923383dbd38aed4fbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 30/37] fix: Cheng stability function: sign of s2 and missing
 part of s6

---
 thetis/stability_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index e148bb6..a623547 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -648,10 +648,10 @@ class ChengStabilityFunctionBase(StabilityFunctionBase):
 
         self.s0 = 0.5*self.l1
         self.s1 = -1.0/3*self.l4*self.l5**-2*(self.l6 + self.l7) + 2.0/3*self.l4/self.l5*(self.l1 - 1.0/3*self.l2 - self.l3) + 0.5*self.l1/self.l5*self.l8
-        self.s2 = 1.0/8*self.l1*self.l5**-2*(self.l6**2 - self.l7**2)
+        self.s2 = -1.0/8*self.l1*self.l5**-2*(self.l6**2 - self.l7**2)
         self.s4 = 2.0/3/self.l5
         self.s5 = 2.0/3*self.l4*self.l5**-2
-        self.s6 = 2.0/3/self.l5*(self.l3**2 - 1.0/3*self.l2**2) - 0.5*self.l1/self.l5*(self.l3 - 1.0/3*self.l2)
+        self.s6 = 2.0/3/self.l5*(self.l3**2 - 1.0/3*self.l2**2) - 0.5*self.l1/self.l5*(self.l3 - 1.0/3*self.l2) + 0.25*self.l1*self.l5**-2*(self.l6 - self.l7)
 
         self.dd0 = 1
         self.dd1 = (7.0/3*self.l4 + self.l8)/self.l5
-- 
2.43.0


From 345836964391bc24a9ec373461d60a224bfeeb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:40 +0000
Subject: [PATCH 31/37] fix: 3D tracer boundary condition 'flux' divides by the
 dict of boundary lengths

---
 thetis/tracer_eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq.py b/thetis/tracer_eq.py
index df32401..3749d86 100644
--- a/thetis/tracer_eq.py
+++ b/thetis/tracer_eq.py
@@ -105,7 +105,7 @@ class TracerTerm(Term):
         elif 'flux' in funcs:
             assert self.bathymetry is not None
             h_ext = elev_ext + self.bathymetry
-            area = h_ext*self.boundary_len  # NOTE using external data only
+            area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = funcs['flux']/area*self.normal
         elif 'un' in funcs:
             uv_ext = funcs['un']*self.normal
-- 
2.43.0


From d42d956f53335da2d0989d21b725490bf4778b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:46 +0000
Subject: [PATCH 32/37] fix: VerticalIntegrator applied the boundary value with
 the wrong sign

The boundary integral of the integration by parts stands on the left hand
side of the weak form, so a prescribed bnd_value must enter the right hand side
with a minus sign; the integral used to start from -bnd_value.
---
 thetis/utility3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 7a0137a..0f1b5c6 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -198,7 +198,7 @@ class VerticalIntegrator(object):
             source = input/(elevation + bathymetry)
         else:
             source = input
-        self.l = inner(source, phi)*self.dx + bnd_term
+        self.l = inner(source, phi)*self.dx - bnd_term
         self.prob = LinearVariationalProblem(self.a, self.l, output, constant_jacobian=average)
         self.solver = LinearVariationalSolver(self.prob, solver_parameters=solver_parameters)
 
-- 
2.43.0


From eab45f9e6f68c26427235c8d9da999efe15f6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:16 +0000
Subject: [PATCH 33/37] fix: Smagorinsky velocity gradient includes fluxes
 through sloped layer interfaces

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 0f1b5c6..5b5c7fc 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -956,8 +956,8 @@ class SmagorinskyViscosity(object):
                 for ix in range(2):
                     i = 2*iuv + ix
                     vol_term = -inner(Dx(test_grad[i], ix), uv[iuv])*dx
-                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*dS_v
-                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*ds_v
+                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*(dS_v + dS_h)
+                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*(ds_v + ds_surf + ds_bottom)
                     rhs_terms.extend([vol_term, int_term, ext_term])
             l = sum(rhs_terms)
             prob = LinearVariationalProblem(a, l, self.grad)
-- 
2.43.0


From 0efcc941481d1986fdf459691139bc3282e5bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:16 +0000
Subject: [PATCH 34/37] fix: store the interpolated kinetic energy

---
 thetis/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/diagnostics.py b/thetis/diagnostics.py
index 975dec8..8099be6 100644
--- a/thetis/diagnostics.py
+++ b/thetis/diagnostics.py
@@ -245,7 +245,7 @@ class KineticEnergyCalculator(DiagnosticCalculator):
             self.projector.project()
         else:
             assert hasattr(self, 'interpolator')
-            self.interpolator.assemble()
+            self.ke.assign(self.interpolator.assemble())
 
 
 class DualWeightedResidual2D(DiagnosticCalculator):
-- 
2.43.0


From 5905b1947a4ac1ab4f5b7f9cbd524fc2c2785219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:16 +0000
Subject: [PATCH 35/37] fix: NameError in mesh mismatch message of
 DualWeightedResidual2D

---
 thetis/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/diagnostics.py b/thetis/diagnostics.py
index 8099be6..6d9a346 100644
--- a/thetis/diagnostics.py
+++ b/thetis/diagnostics.py
@@ -283,7 +283,7 @@ class DualWeightedResidual2D(DiagnosticCalculator):
             dim = mesh2d.topological_dimension
             raise ValueError(f"Expected a mesh of dimension 2, not {dim}")
         if mesh2d != dual.ufl_domain():
-            raise ValueError(f"Mismatching meshes ({mesh2d} vs {func.ufl_domain()})")
+            raise ValueError(f"Mismatching meshes ({mesh2d} vs {dual.ufl_domain()})")
         self.F = replace(self.form, {TestFunction(self.space): dual})
 
     @abstractmethod
-- 
2.43.0


From 12dc2f80b035a85a3e28f49ebecc161babcd8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:16 +0000
Subject: [PATCH 36/37] fix: export of a single vector valued control in
 optimisation callbacks

---
 thetis/optimisation.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/thetis/optimisation.py b/thetis/optimisation.py
index 5da9380..289f55c 100644
--- a/thetis/optimisation.py
+++ b/thetis/optimisation.py
@@ -125,9 +125,7 @@ class DeferredExportManager(object):
               are first copied. The list may contain different functions in subsequent calls,
               but their function space should remain the same.
         """
-        try:
-            len(functions)
-        except (TypeError, NotImplementedError):
+        if not isinstance(functions, (list, tuple)):
             functions = [functions]
 
         if self.export_manager is None:
@@ -201,12 +199,9 @@ class DerivativesExportOptimisationCallback(DeferredExportManager, OptimisationC
     def callback(self, *args):
         if len(args) != 3:
             raise TypeError("DerivativesExportOptimisationCallback called with wrong number of arguments: should be used for derivative_cb_post callback only.")
-        try:
-            # get name from controls args[-1]
-            names = [function.name() for function in args[-1]]
-        except (TypeError, NotImplementedError):
-            # args[-1] is not a list but a single control
-            names = [args[-1].name()]
+        # args[-1] is a list of controls or a single control
+        controls = args[-1] if isinstance(args[-1], (list, tuple)) else [args[-1]]
+        names = [function.name() for function in controls]
         self.export(args[1], suggested_names=names)
 
 
-- 
2.43.0


From 633eba35a249ac639e781dc1c4d5d6cc4a649749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:16 +0000
Subject: [PATCH 37/37] fix: refuse FunctionalOptimisationCallback in a _pre
 callback

---
 thetis/optimisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/optimisation.py b/thetis/optimisation.py
index 289f55c..a32d223 100644
--- a/thetis/optimisation.py
+++ b/thetis/optimisation.py
@@ -269,7 +269,7 @@ class FunctionalOptimisationCallback(DiagnosticOptimisationCallback):
     name = 'functional'
 
     def compute_values(self, *args):
-        if len(args) == 0:
+        if len(args) < 2:
             raise TypeError('FunctionalOptimisationCallback can be used as _post callback only.')
         return [args[0]]
 
-- 
2.43.0

