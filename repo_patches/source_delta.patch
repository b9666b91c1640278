From 4fdb939248da2d0f50d9d5e05f976f921687dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 01/36] fix: make the ContactSurface annotations importable

The methods' annotations named the class while it was still being defined,
so that 'import hyvr' failed with a NameError.
---
 hyvr/geo/contact_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..6a8b4da 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -37,7 +37,7 @@ class ContactSurface:
 
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+    def use_lower_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +48,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From a3ad0cf6301ada5b32ee440833452e9ced310055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 02/36] fix: do not use the removed alias np.float

Any model generation failed with an AttributeError on current numpy.
---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..dd3a92e 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=float)
+    dip_array = np.zeros((nx, ny, nz), dtype=float)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=float)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..3d92a27 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=float)
+        self.object_dip = np.zeros(self.n_objects, dtype=float)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..05c11d6 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=float)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=float)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=float)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=float)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..edbe07c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=float)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=float)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=float)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=float)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=float)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
-- 
2.43.0


From 95837092b5e7d6372fa618ffea9eabe0c6f6ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 03/36] fix: missing math functions and numpy booleans in
 hyvr.optimized

sin, cos and sqrt came from libc.math in the Cython version, and subtracting
numpy booleans raises a TypeError.
---
 hyvr/optimized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..18b34c8 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -4,6 +4,8 @@ This module contains optimized versions of routines that were once in sim or uti
 :Author: Samuel Scherrer
 """
 
+from math import cos, sin, sqrt
+
 import numpy as np
 import numpy.typing as npt
 
@@ -70,7 +72,7 @@ def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64],
 
 
 def sign(x: float):
-    return (x >= 0) - (x < 0)
+    return int(x >= 0) - int(x < 0)
 
 
 
-- 
2.43.0


From 0e58242b4ecb0d76c927d947c5ef01859c1178dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 04/36] fix: initialise the attributes a massive or dipping
 sheet does not set

In the Cython version these were zero-initialised C attributes; SheetAE reads
all of them for every sheet.
---
 hyvr/geo/sheet.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..1e1aba6 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -30,6 +30,17 @@ class Sheet:
 
     def __init__(self, type_params, bottom_surface, top_surface, grid):
 
+        # not all of these are set for every internal structure
+        self.shift = 0.0
+        self.layer_dist = 0.0
+        self.normvec_x = 0.0
+        self.normvec_y = 0.0
+        self.normvec_z = 0.0
+        self.facies = 0
+        self.num_ha = 0
+        self.num_facies = 0
+        self.facies_array = None
+
         self.bottom_surface = bottom_surface
         self.top_surface = top_surface
         self.zmin = self.bottom_surface.zmin
-- 
2.43.0


From deac5c36373f57f8d0af04c5d9df6de2ae18fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 05/36] fix: provide troughs and channels without Cython

Like grid, sheet and sheet_ae, the trough and channel modules are now available
as pure Python versions; the .pyx files can not be built anymore since the .pxd
files they need do not exist, so 'import hyvr' failed.
In channels, the cells to skip in y-direction are counted in units of dy, the
facies index of dipping sets can not get negative, and size_ztrend works.
---
 hyvr/geo/channel.py    | 102 ++++++++++++++
 hyvr/geo/channel_ae.py | 294 +++++++++++++++++++++++++++++++++++++++++
 hyvr/geo/trough.py     | 181 +++++++++++++++++++++++++
 hyvr/geo/trough_ae.py  | 281 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 858 insertions(+)
 create mode 100644 hyvr/geo/channel.py
 create mode 100644 hyvr/geo/channel_ae.py
 create mode 100644 hyvr/geo/trough.py
 create mode 100644 hyvr/geo/trough_ae.py

diff --git a/hyvr/geo/channel.py b/hyvr/geo/channel.py
new file mode 100644
index 0000000..b15ce3c
--- /dev/null
+++ b/hyvr/geo/channel.py
@@ -0,0 +1,102 @@
+from math import cos, sin, sqrt
+
+import numpy as np
+import hyvr.utils as hu
+
+
+class Channel:
+    """
+    Channel implementation.
+
+    This is work in progress, as we currently lack a centerline construction method.
+    """
+
+    def __init__(self, type_params, x_center, y_center, vx, vy, z, width, depth, grid):
+        # x_center and y_center should be coordinates of points on the centerline.
+        # not all of these are set for every internal structure
+        self.shift = 0.0
+        self.layer_dist = 0.0
+        self.azim = 0.0
+        self.sin_dip = 0.0
+        self.cos_dip = 0.0
+        self.facies = 0
+        self.num_ha = 0
+        self.num_facies = 0
+        self.zero_idx = 0
+        self.facies_array = None
+
+        self.x_center = x_center
+        self.y_center = y_center
+        self.vx = vx
+        self.vy = vy
+        self.len_centerline = len(x_center)
+
+        # we need this to reduce the amount of distance checks
+        self.dont_check = np.zeros((grid.nx, grid.ny), dtype=np.int32)
+        self.min_dx_dy = min(grid.dx, grid.dy)
+
+        # for better searching
+        self.ztop = z
+        self.zmax = z
+        self.zmin = z - depth
+
+
+        # The channel shape is a parabolic function that maps the distance in
+        # the x-y-plane onto a z-value:
+        #
+        #     z(d) = a*d**2 + b*d + c
+        #
+        # The parameters a, b, and c must be chosen such that ``z(0) = -depth``
+        # and ``z(+-width/2) = 0``:
+        #
+        #     z(0) = c = -depth                                          (1)
+        #
+        #     z(width/2) = a*width**2/4 + b*width/2 - depth = 0
+        #     z(-width/2) = a*width**2/4 - b*width/2 - depth = 0
+        #
+        # Therefore ``b = 0`` and ``a = 4*depth/width**2``
+        self.depth = depth
+        self.width = width
+        self.a = 4*self.depth/self.width**2
+
+        # lag
+        self.lag_height = type_params['lag_height']
+        self.lag_facies = type_params['lag_facies']
+
+
+        # Get facies, dip, and azimuth
+        self.dipsets = type_params['structure'] == 'dip'
+        if self.dipsets:
+            # the dipsets are layers of planes along the channel centerline
+            # with distance 'dipset_dist'
+            # To find which layer a point belongs to we will calculate its
+            # distance along the centerline.
+            # Since the layers are dipping, the real distance is longer than
+            # the distance that we would go if we would go orthogonal to the
+            # planes. Therefore the distance along the curve has to be
+            # multiplied by the sin of the dip angle
+            self.layer_dist = type_params['dipset_dist']
+            self.dip = np.random.uniform(*type_params['dip'])
+            self.sin_dip = sin(self.dip*np.pi/180)
+            self.cos_dip = cos(self.dip*np.pi/180)
+            # a random shift to be added to the distance
+            self.shift = np.random.uniform(0, self.layer_dist)
+
+            # The respective facies will be stored in an array. The distance
+            # along the curve is not negative, but the correction for the depth
+            # is, so the zero-plane is at index zero_idx
+            # To find out how long the list has to be we have to find the length of the curve
+            dist_along_curve = 0
+            for i in range(1, self.len_centerline):
+                dist_along_curve += sqrt((self.x_center[i] - self.x_center[i-1])**2
+                                            +(self.y_center[i] - self.y_center[i-1])**2
+                )
+            dist_along_curve *= self.sin_dip
+            self.zero_idx = int(np.ceil((self.depth + max(0, -dist_along_curve))/self.layer_dist)) + 1
+            self.num_facies = self.zero_idx + int(np.ceil(max(0, dist_along_curve)/self.layer_dist))
+            self.num_facies += 10  # just to be sure
+            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
+        else:
+            # massive internal structure
+            self.dip = np.random.uniform(*type_params['dip'])
+            self.facies = np.random.choice(type_params['facies'])
diff --git a/hyvr/geo/channel_ae.py b/hyvr/geo/channel_ae.py
new file mode 100644
index 0000000..abeb742
--- /dev/null
+++ b/hyvr/geo/channel_ae.py
@@ -0,0 +1,294 @@
+from math import atan2, floor, sqrt
+
+import numpy as np
+import numpy.typing as npt
+
+from hyvr.geo.ae_realization import AERealization
+from hyvr.geo.channel import Channel
+from hyvr.geo.channel_utils import ferguson_curve
+from hyvr.geo.grid import Grid
+
+
+class ChannelAE(AERealization):
+
+    def create_object_arrays(self):
+        self.object_a = np.zeros(self.n_objects, dtype=float)
+        self.object_width = np.zeros(self.n_objects, dtype=float)
+        self.object_depth = np.zeros(self.n_objects, dtype=float)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=float)
+        self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
+        self.object_ztop = np.zeros(self.n_objects, dtype=float)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=float)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=float)
+        self.object_shift = np.zeros(self.n_objects, dtype=float)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=float)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=float)
+        self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
+        self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
+        self.object_zero_idx = np.zeros(self.n_objects, dtype=np.int32)
+
+        if self.n_objects > 0:
+            nx, ny = self.object_list[0].dont_check.shape
+        else:
+            nx, ny = 0, 0
+        self.object_dont_check = np.zeros((self.n_objects, nx, ny), dtype=np.int32)
+
+        for i, obj in enumerate(self.object_list):
+            self.object_a[i] = obj.a
+            self.object_width[i] = obj.width
+            self.object_depth[i] = obj.depth
+            self.object_min_dx_dy[i] = obj.min_dx_dy
+            self.object_len_centerline[i] = obj.len_centerline
+            self.object_ztop[i] = obj.ztop
+            self.object_sin_dip[i] = obj.sin_dip
+            self.object_cos_dip[i] = obj.cos_dip
+            self.object_shift[i] = obj.shift
+            self.object_layer_dist[i] = obj.layer_dist
+            self.object_lag_height[i] = obj.lag_height
+            self.object_lag_facies[i] = obj.lag_facies
+            self.object_dipsets[i] = obj.dipsets
+            self.object_zero_idx[i] = obj.zero_idx
+            self.object_dont_check[i,:,:] = obj.dont_check
+
+        # find length of centerline discretizations
+        if self.n_objects > 0:
+            max_len_centerline = np.max(self.object_len_centerline)
+        else:
+            max_len_centerline = 0
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+
+        self.object_dist_along_curve = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+
+        for i, obj in enumerate(self.object_list):
+            n = self.object_len_centerline[i]
+            self.object_x_center[i,:n] = obj.x_center
+            self.object_y_center[i,:n] = obj.y_center
+            self.object_vx[i,:n] = obj.vx
+            self.object_vy[i,:n] = obj.vy
+            self.object_dist_along_curve[i,1:n] = np.cumsum(
+                np.sqrt(np.diff(obj.x_center)**2 + np.diff(obj.y_center)**2)
+            )
+
+
+    def generate_objects(self, grid):
+        """
+        Generate channel objects and place them in the domain.
+
+
+
+        The following was just an idea I had, ignore it.
+
+        The channels follow a mean flow angle that is given in the parameter
+        file. From this angle, a flow axis is constructed as the "center axis"
+        in direction of the flow angle. (This means the flow axis is chosen such
+        that the projection of the (x-y-)domain onto the axis perpendicular to
+        the flow axis is cut in half by the flow axis.)
+
+        The channels are then created as random 1-d functions of the position
+        on the flow axis, with random starting points (within the projection of
+        the domain onto the axis perpendicular to the flow axis).
+        This can then be rotated to get an approximation of the channel curve
+        (a set of points which lie on the curve).
+
+        On every level, 'channel_no' channels are constructed. They share the
+        same flow angle but are shifted w.r.t. the flow axis.
+
+        Its also possible to let the channels migrate in time, i.e. slightly
+        change the flow angle and the distance between the channels (by
+        changing their starting points).
+        """
+
+        n_channels = self.type_params['channel_no']
+
+        flow_angle = self.type_params['flow_angle']*np.pi/180
+        domain_width = np.abs(grid.lx * np.sin(flow_angle)) + np.abs(grid.ly * np.cos(flow_angle))
+        domain_length = np.abs(grid.lx * np.cos(flow_angle)) + np.abs(grid.ly * np.sin(flow_angle))
+        ystart = np.random.uniform(-domain_width/2, domain_width/2, n_channels)
+
+
+        # get number of layers
+        dz = self.type_params['agg']
+        if self.type_params['size_ztrend'] is not None:
+            z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
+        else:
+            zfactor = 1
+        depth = self.type_params['depth'] * zfactor
+        zbottom = self.bottom_surface.zmean + depth*self.type_params['buffer']
+        ztop = self.top_surface.zmean
+
+        z = ztop - dz
+        while z > zbottom:
+
+
+            # get current width and depth
+            if self.type_params['size_ztrend'] is not None:
+                zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
+            else:
+                zfactor = 1
+            width = self.type_params['width'] * zfactor
+            depth = self.type_params['depth'] * zfactor
+
+            for i in range(n_channels):
+                # get start of channel
+                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                # generate centerline
+                outputs = ferguson_curve(grid,
+                                         self.type_params['h'],
+                                         self.type_params['k'],
+                                         self.type_params['ds'],
+                                         self.type_params['eps_factor'],
+                                         flow_angle,
+                                         domain_length,
+                                         xstart_grid,
+                                         ystart_grid,
+                                         width,
+                )
+                x_center = outputs[:,0]
+                y_center = outputs[:,1]
+                vx = outputs[:,2]
+                vy = outputs[:,3]
+
+
+                # generate channels
+                channel = Channel(self.type_params, x_center, y_center, vx, vy, z, width, depth, grid)
+                self._add_object(channel)
+
+                if self.type_params['mig'] is not None:
+                    ystart[i] -= np.random.uniform(-self.type_params['mig'], self.type_params['mig'])
+
+            z -= dz
+
+
+
+    def maybe_assign_points_to_object(self, oi: int,
+                                        geo_ids: npt.NDArray[np.int32],
+                                        angles: npt.NDArray[np.float64],
+                                        x: float, y: float, z: float,
+                                        x_idx: int, y_idx: int,
+                                        grid: Grid):
+        """
+        This function checks whether the current grid cell with given
+        coordinates is inside the trough and assigns facies, azimuth and dip by
+        altering the passed arrays.
+
+        Parameters
+        ----------
+        oi : int
+            object index
+        geo_ids : np.int32 array of size 4
+            This holds the geological indices, i.e. facies number, architectural
+            element number, hydrofacies assemblage (ha) and hydrofacies assemblage
+            type (hat).
+        angles : double array
+            array of size 2 that holds the azimuth and dip of the cell. This
+            will also be altered.
+        x, y, z : double
+            cell coordinates
+        x_idx, y_idx : int
+            indices of x and y position in grid.
+        grid : Grid object
+        """
+
+
+        # if the point is above the channel top, don't consider it
+        dz = z - self.object_ztop[oi]
+        if dz > 0:
+            geo_ids[0] = -1
+            return
+
+        # To check whether a point is inside the channel, we have to calculate
+        # its distance to the centerline. This is quite costly, as it means we
+        # have to iterate over the list of centerline points.
+        # To avoid checks, after each distance calculation of a cell that does
+        # belong to the channel, we try to find the indices of all points that
+        # are closer to the current point than ``distance - channel width``.
+        # These will then be set to 1 in ``dont_check``, so we can skip the
+        # check for these.
+
+        if self.object_dont_check[oi,x_idx, y_idx]:
+            geo_ids[0] = -1
+            return
+
+
+        len_centerline = self.object_len_centerline[oi]
+        if len_centerline == 0:
+            # no part of the channel is close to the domain
+            geo_ids[0] = -1
+            return
+
+        # Otherwise, get the distance to the centerline in xy-plane and z-direction
+        # If we have dipsets, we will also directly calculate the velocity
+        # (inverse distance weighting) and the distance along the curve
+        dist_square = (x - self.object_x_center[oi,:len_centerline])**2 \
+            + (y - self.object_y_center[oi,:len_centerline])**2
+        closest_idx = int(np.argmin(dist_square))
+        xy_dist = sqrt(dist_square[closest_idx])
+
+        # Find other cells that are also not close enough
+        radius = xy_dist - self.object_width[oi]
+        if radius > self.object_min_dx_dy[oi]:
+            # Idea: find number of cells in x-direction, then loop over these
+            # and find y-directions for those.
+            nx = min(int(radius/grid.dx), grid.nx)
+            for i in range(nx):
+                # 'height' of the circle at distance x = i*dx from the center:
+                #
+                #     y(x) = sqrt(radius**2 - x**2)
+                #
+                ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
+                if ny > 0:
+                    ymin = max(y_idx - ny + 1, 0)
+                    ymax = y_idx + ny
+                    if x_idx-i >= 0:
+                        self.object_dont_check[oi,x_idx-i,ymin:ymax] = 1
+                    if x_idx+i < grid.nx:
+                        self.object_dont_check[oi,x_idx+i,ymin:ymax] = 1
+
+        # Now we calculate the value of the shape curve and check whether the
+        # point is really inside (i.e. is above the parabola)
+        if dz >= self.object_a[oi]*xy_dist**2 - self.object_depth[oi]:
+            # it's inside: assign stuff
+            geo_ids[2] = self.object_num_ha[oi]
+            if z < self.object_ztop[oi] - self.object_depth[oi] + self.object_lag_height[oi]:
+                angles[0] = 0
+                angles[1] = 0
+                geo_ids[0] = self.object_lag_facies[oi]
+                return
+
+            if self.object_dipsets[oi]:
+                # azimuth from inverse distance weighted velocity
+                weights = 1/(np.sqrt(dist_square) + 1e-20)
+                vx_now = np.dot(self.object_vx[oi,:len_centerline], weights)
+                vy_now = np.dot(self.object_vy[oi,:len_centerline], weights)
+                angles[0] = atan2(vy_now, vx_now)/np.pi*180
+                # dip as assigned
+                angles[1] = self.object_dip[oi]
+
+                # TODO: the distance along the curve is actually a bit
+                # different, as the point is not directly orthogonal to the closest point.
+                # However, if the point density on the centerline is high
+                # enough, it won't really matter.
+                # To correct for the distance in z-direction we subtract |dz| * cos(dip)
+                # note that dz is negative here
+                d = self.object_dist_along_curve[oi,closest_idx] * self.object_sin_dip[oi] \
+                    + dz*self.object_cos_dip[oi] + self.object_shift[oi]
+                # get index in facies vector, where n = zero_idx at d=0
+                n = floor(d/self.object_layer_dist[oi]) + self.object_zero_idx[oi]
+                geo_ids[0] = self.object_facies_array[oi,n]
+                return
+            else:
+                angles[0] = self.object_azim[oi]
+                angles[1] = self.object_dip[oi]
+                geo_ids[0] = self.object_facies[oi]
+                return
+
+        else:
+            # it's not inside. This means lower points will also not be inside
+            self.object_dont_check[oi,x_idx, y_idx] = 1
+            geo_ids[0] = -1
+            return
diff --git a/hyvr/geo/trough.py b/hyvr/geo/trough.py
new file mode 100644
index 0000000..8b5f6a4
--- /dev/null
+++ b/hyvr/geo/trough.py
@@ -0,0 +1,181 @@
+from math import ceil, cos, sin
+
+import numpy as np
+import hyvr.utils as hu
+
+
+class Trough:
+    """
+    This class holds all parameters of a geometrical trough object.
+
+    The only method of this class is __init__, as after creating all trough
+    objects, the list of troughs in TroughAE will be converted to multiple lists
+    containing of attribute values for easier access.
+    """
+
+    def __init__(self, type_params, *, x, y, z, a, b, c, alpha):
+        # not all of these are set for every internal structure
+        self.shift = 0.0
+        self.layer_dist = 0.0
+        self.dip = 0.0
+        self.azim = 0.0
+        self.cosdip = 0.0
+        self.normvec_x = 0.0
+        self.normvec_y = 0.0
+        self.normvec_z = 0.0
+        self.facies = 0
+        self.num_ha = 0
+        self.num_facies = 0
+        self.facies_array = None
+
+        self.x = x
+        self.y = y
+        self.z = z
+        self.a = a
+        self.b = b
+        self.c = c
+        self.max_ab = max(a, b)
+        self.zmin = z - c
+        self.zmax = z
+        self.alpha = alpha
+
+        # To calculate the 'normalized' distance (i.e. the distance normalized
+        # by the parameters a, b, and c such that distance > 1 means outside of
+        # the ellipsoid) of a rotated trough or to find the tangential planes
+        # to calculate dip and azimuth of bulb sets, we could view our
+        # ellipsoid as a deformed and rotated sphere. At first, a deformation
+        # along the x-, y- and z-axes is performed, and then a rotation along
+        # the z-axis with angle alpha.
+        # In matrix form, this operation looks as follows:
+        #
+        #     / cos -sin  0 \   / a  0  0 \   / a*cos -b*sin  0 \
+        # A = | sin  cos  0 | * | 0  b  0 | = | a*sin  b*cos  0 |
+        #     \  0    0   1 /   \ 0  0  c /   \   0      0    c /
+        #
+        # sin and cos are here sin and cos of alpha, the rotation angle
+        # This matrix can be used to transform from the normalized space to the
+        # real space. To go from the real space to the normalized space, the
+        # inverse has to be applied.
+        # Since this is a block diagonal matrix, we can just invert both blocks:
+        #
+        #        /  cos/a  sin/a   0  \
+        # Ainv = | -sin/b  cos/b   0  |
+        #        \    0       0   1/c /
+        #
+        #
+        # Multiplication with a vector (x0, x1, x2) gives:
+        #
+        #          /  x0*cos/a + x1*sin/a \
+        # Ainv*x = | -x0*sin/b + x1*cos/b |
+        #          \         x2/c         /
+        #
+        #
+        self.sinalpha = np.sin(alpha*np.pi/180)
+        self.cosalpha = np.cos(alpha*np.pi/180)
+        # self.A = np.asarray([[a*self.cosalpha, -b*self.sinalpha, 0],
+        #                      [a*self.sinalpha, b*self.cosalpha, 0],
+        #                      [0, 0, c]])
+        # self.normalize_x = lambda x, y, z: np.array(
+        #     [(x*self.cosalpha + y*self.sinalpha)/self.a,
+        #      (-x*self.sinalpha + y*self.cosalpha)/self.b,
+        #      z/c]
+        # )
+        # self.normalized_dist_square = lambda x, y, z: (
+        #     ((x*self.cosalpha + y*self.sinalpha)/a)**2 +\
+        #     ((-x*self.sinalpha + y*self.cosalpha)/b)**2 +\
+        #     (z/c)**2
+        #     )
+
+        self.lag = type_params['lag_height']
+        self.lag_facies = type_params['lag_facies']
+
+        # Assign structure
+        #
+        # To avoid string comparisons we assign each structure a number as
+        # follows:
+        #
+        # 0 : 'massive'
+        # 1 : 'dip'
+        # 2 : 'bulb'
+        # 3 : 'bulb_sets'
+        # 4 : 'random'
+        self.structure = ['massive', 'dip', 'bulb', 'bulb_sets', 'random'].index(type_params['structure'])
+        if self.structure == 4: # random
+            self.structure = np.random.randint(4)
+        if self.structure == 0:  # massive
+            # everything has the same facies, azim, and dip
+            # alpha (rotation angle of trough) is added to azimuth
+            self.facies = np.random.choice(type_params['facies'])
+            self.azim = np.random.uniform(*type_params['azimuth']) + self.alpha
+            self.dip = np.random.uniform(*type_params['dip'])
+        elif self.structure == 1: # dip
+            # In this case the internal structure consists of parallel dipping layers.
+            # To describe these, we need their thickness, a point where we
+            # could place the first layer, and a normal vector defined by two
+            # angles, dip and azimuth.
+            self.layer_dist = type_params['dipset_dist']
+
+            # The normal vector is determined by the dip angle of the dipping
+            # sets and their azimuth. We can again obtain the normal vector by
+            # applying rotation matrices to the vector (0, 0, 1) (the upwards
+            # pointing unit vector).
+            # First, we apply the dip rotation by rotating by the dip
+            # angle along the y-axis to the right (anti-clockwise).
+            # Then we rotate around the z-axis by the azimuth angle along the
+            # z-axis to the left (clockwise)
+            # In matrix notation:
+            #
+            #     / cos(azim)  sin(azim)  0 \   /  cos(dip)  0  sin(dip) \   / 0 \
+            # n = |-sin(azim)  cos(azim)  0 | * |     0      1     0     | * | 0 |
+            #     \    0            0     1 /   \ -sin(dip)  0  cos(dip) /   \ 1 /
+            #
+            #
+            #     / cos(azim)  sin(azim)  0 \   /  sin(dip) \
+            # n = |-sin(azim)  cos(azim)  0 | * |    0      |
+            #     \    0            0     1 /   \  cos(dip) /
+            #
+            #
+            #     /  sin(dip)*cos(azim) \
+            # n = | -sin(dip)*sin(azim) |
+            #     \       cos(dip)      /
+            #
+            #
+            # The azimuth is the given azimuth **with** the rotation of the
+            # trough, all angles are in degree
+            self.azim = np.random.uniform(*type_params['azimuth']) + self.alpha
+            self.dip = np.random.uniform(*type_params['dip'])
+            sin_dip = sin(self.dip*np.pi/180)
+            cos_dip = cos(self.dip*np.pi/180)
+            sin_azim = sin(self.azim*np.pi/180)
+            cos_azim = cos(self.azim*np.pi/180)
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
+            self.normvec_z = cos_dip
+
+            # The 'starting point' will be the center of the trough, i.e.
+            # (self.x, self.y, self.z).
+            # To move the planes a bit we add a random component
+            self.shift = np.random.uniform(0, self.layer_dist)
+
+            # The facies changes with every distance `layer_dist` to the zero
+            # plane. The maximum number of different facies is:
+            self.num_facies = int(np.ceil((2*max(a, b, c) + self.shift)/self.layer_dist)) + 2
+            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
+        elif self.structure == 2: # bulb
+            self.facies = np.random.choice(type_params['facies'])
+            # only used as maximum possible dip
+            self.dip = np.random.uniform(*type_params['dip'])
+        elif self.structure == 3: # bulb_sets
+            # The facies thickness is 'bulbset_dist', and is measured along the
+            # z-axis. If a cell is not on the z-axis, this distance get's
+            # deformed a bit. We add again a random shift, but this time in the
+            # normalized domain.
+            self.layer_dist = type_params['bulbset_dist']
+            self.shift = np.random.uniform()
+            self.num_facies = int(ceil((1 + self.shift)*c/self.layer_dist)) + 1
+            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
+            # maximum possible dip
+            self.dip = np.random.uniform(*type_params['dip'])
+        else:
+            print("Structure number:", self.structure)
+            raise NotImplementedError('This structure is not implemented yet')
diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
new file mode 100644
index 0000000..f047294
--- /dev/null
+++ b/hyvr/geo/trough_ae.py
@@ -0,0 +1,281 @@
+from math import acos, atan2, ceil, fabs, pi, sqrt
+
+import numpy as np
+import numpy.typing as npt
+
+import hyvr.optimized as ho
+from hyvr.geo.ae_realization import AERealization
+from hyvr.geo.grid import Grid
+from hyvr.geo.trough import Trough
+from hyvr.geo.trough_utils import *
+
+
+class TroughAE(AERealization):
+
+    def create_object_arrays(self):
+        self.object_x = np.zeros(self.n_objects, dtype=float)
+        self.object_y = np.zeros(self.n_objects, dtype=float)
+        self.object_z = np.zeros(self.n_objects, dtype=float)
+        self.object_a = np.zeros(self.n_objects, dtype=float)
+        self.object_b = np.zeros(self.n_objects, dtype=float)
+        self.object_c = np.zeros(self.n_objects, dtype=float)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=float)
+        self.object_alpha = np.zeros(self.n_objects, dtype=float)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=float)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=float)
+        self.object_lag = np.zeros(self.n_objects, dtype=float)
+        self.object_shift = np.zeros(self.n_objects, dtype=float)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=float)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=float)
+        self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
+        self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
+
+        for i, obj in enumerate(self.object_list):
+            self.object_x[i] = obj.x
+            self.object_y[i] = obj.y
+            self.object_z[i] = obj.z
+            self.object_a[i] = obj.a
+            self.object_b[i] = obj.b
+            self.object_c[i] = obj.c
+            self.object_max_ab[i] = obj.max_ab
+            self.object_alpha[i] = obj.alpha
+            self.object_sinalpha[i] = obj.sinalpha
+            self.object_cosalpha[i] = obj.cosalpha
+            self.object_lag[i] = obj.lag
+            self.object_shift[i] = obj.shift
+            self.object_cosdip[i] = obj.cosdip
+            self.object_layer_dist[i] = obj.layer_dist
+            self.object_normvec_x[i] = obj.normvec_x
+            self.object_normvec_y[i] = obj.normvec_y
+            self.object_normvec_z[i] = obj.normvec_z
+            self.object_lag_facies[i] = obj.lag_facies
+            self.object_structure[i] = obj.structure
+
+
+    def generate_objects(self, grid):
+        """
+        Generate trough objects and place them in the domain.
+        """
+
+        # get trough positions
+        if self.type_params['te_xyz'] is None:
+            te_xyz = generate_trough_positions(
+                self.bottom_surface, self.top_surface, self.type_params, grid
+            )
+        else:
+            te_xyz = self.type_params['te_xyz']
+
+        # Generate troughs
+        for xc, yc, zc in te_xyz:
+            trough_params = rand_trough_params(self.type_params, zc, grid)
+            trough_params['x'] = xc
+            trough_params['y'] = yc
+            trough_params['z'] = zc
+            trough = Trough(self.type_params, **trough_params)
+            self._add_object(trough)
+
+
+
+
+    def maybe_assign_points_to_object(self, oi: int,
+                                        geo_ids: npt.NDArray[np.int32],
+                                        angles: npt.NDArray[np.float64],
+                                        x: float, y: float, z: float,
+                                        x_idx: int, y_idx: int,
+                                        grid: Grid):
+        """
+        This function checks whether the current grid cell with given
+        coordinates is inside the trough and assigns facies, azimuth and dip by
+        altering the passed arrays.
+
+        Parameters
+        ----------
+        oi : int
+            object index
+        geo_ids : np.int32 array of size 4
+            This holds the geological indices, i.e. facies number, architectural
+            element number, hydrofacies assemblage (ha) and hydrofacies assemblage
+            type (hat).
+        angles : double array
+            array of size 2 that holds the azimuth and dip of the cell. This
+            will also be altered.
+        x, y, z : double
+            cell coordinates
+        x_idx, y_idx : int
+            indices of x and y position in grid.
+        grid : Grid object
+        """
+
+        object_x = self.object_x[oi]
+        object_y = self.object_y[oi]
+        object_z = self.object_z[oi]
+
+
+        # Beware: This function is called a lot, so it should really be fast
+
+        ####################################################################
+        # CHECK IF INSIDE
+        ####################################################################
+
+        # At first, we check whether the cell is inside the domain. To keep the
+        # number of calculations short, we first use very broad criterions
+        # before calculating whether it's inside.
+        dx = x - object_x
+        dy = y - object_y
+        dz = z - object_z
+        if grid.periodic:
+            if dx > grid.lx/2:
+                dx -= grid.lx
+            elif dx < -grid.lx/2:
+                dx += grid.lx
+            if dy > grid.ly/2:
+                dy -= grid.ly
+            elif dy < -grid.ly/2:
+                dy += grid.ly
+        # it seems to me that this is a bit faster than abs, and speed here is critical
+        max_ab = self.object_max_ab[oi]
+        if dx > max_ab or -dx > max_ab or dy > max_ab or -dy > max_ab or dz > 0:
+            geo_ids[0] = -1
+            return
+
+        # To decide whether the point is inside, we can just use the normalized
+        # distance. Therefore we first calculate the normalized distance vector
+        cosalpha = self.object_cosalpha[oi]
+        sinalpha = self.object_sinalpha[oi]
+        normalized_dx = (dx*cosalpha + dy*sinalpha)/self.object_a[oi]
+        normalized_dy = (-dx*sinalpha + dy*cosalpha)/self.object_b[oi]
+        normalized_dz = dz/self.object_c[oi]
+        l2 = normalized_dx**2 + normalized_dy**2 + normalized_dz**2
+        if l2 > 1:
+            geo_ids[0] = -1
+            return
+
+        # At this point we know that the point is in the domain, so we have to
+        # assign values
+
+        # check whether it's below the lag surface
+        if z < object_z - self.object_c[oi] + self.object_lag[oi]:
+            # is inside lag surface
+            geo_ids[0] = self.object_lag_facies[oi]
+            angles[0] = 0 # no azimuth
+            angles[1] = 0 # no dip
+            geo_ids[2] = self.object_num_ha[oi]
+            return
+
+        structure = self.object_structure[oi]
+        if structure == 0: # massive
+            geo_ids[0] = self.object_facies[oi]
+            angles[0] = self.object_azim[oi]
+            angles[1] = self.object_dip[oi]
+            geo_ids[2] = self.object_num_ha[oi]
+            return
+        elif structure == 1: # dip
+            # get distance from zero-plane
+            plane_dist = dx*self.object_normvec_x[oi] +\
+                         dy*self.object_normvec_y[oi] +\
+                         dz*self.object_normvec_z[oi] + self.object_shift[oi]
+            # get index in facies vector, where n = len(facies)//2 at d=0
+            n = int(plane_dist/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            geo_ids[0] = self.object_facies_array[oi,n]
+            angles[0] = self.object_azim[oi]
+            angles[1] = self.object_dip[oi]
+            geo_ids[2] = self.object_num_ha[oi]
+            return
+        elif structure == 2 or structure == 3: # bulb or bulb_sets
+            # Since ellipsoids are isosurfaces of quadratic functions, we can
+            # get the normal vector by taking the gradient of the quadratic
+            # function that has our ellipsoid as iso-surface.
+            # This function can be written as:
+            #
+            # f(d(x)) = (x*cos+y*sin)**2/a**2 + (-x*sin+y*cos)**2/b** + z**2/c**2
+            #
+            # The gradient is (up to a scalar)
+            #
+            #             /  nx*cos/a + ny*sin/b  \
+            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             \          nz/c         /
+            #
+            # where nx, ny, nz are the normalized distances.
+            # The gradient points outwards.
+            # The length of the vector is
+            #
+            # |grad f(x)| = (nx/a)**2 + (ny/b)**2 + (nz/c)**2
+            #
+            # The dip angle is the the angle between the normal
+            # vector and the unit z-vector.
+            # The azimuth is the angle between the projection of the normal
+            # vector onto the x-y-plane and the unit x-vector.
+            aaa = normalized_dx/self.object_a[oi]
+            bbb = normalized_dy/self.object_b[oi]
+            ccc = normalized_dz/self.object_c[oi]
+            len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
+            if len_normvec != 0:
+                normvec_x = (aaa*self.object_cosalpha[oi]
+                             + bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             + bbb*self.object_cosalpha[oi])/len_normvec
+                normvec_z = ccc/len_normvec
+                len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
+                if len_normvec_xy == 0:
+                    # normal vector points in z-direction -> dip = 0, azim = 0
+                    dip = 0.
+                    azim = 0.
+                else:
+                    # The dip angle can be found as acos of the normalized
+                    # scalar product of unit z-vector and normal vector
+                    # It should be negative, if the gradient points in positive
+                    # x direction and in positive z direction, or if it points
+                    # in negative x and z direction.
+                    # direction.
+                    if normvec_z == 0:
+                        # in this case only the sign of x is relevant
+                        dip = -acos(fabs(normvec_z))*ho.sign(normvec_x)/pi*180
+                    else:
+                        dip = -acos(fabs(normvec_z))\
+                              * ho.sign(normvec_x*normvec_z)/ pi*180
+
+                    # The azimuth angle should also be between -90 and 90. It is
+                    # the angle between the projection of the normal vector into
+                    # the xy-plane and the x unit vector.
+                    # It can be calculated as negative atan of the y component
+                    # over the x component. To make sure the angle is between
+                    # -90 and 90, we change the sign of both components, if the
+                    # x component is negative. This means the x component is
+                    # always positive, and the y component is multiplied by the
+                    # sign of the x component
+                    azim = -atan2(ho.sign(normvec_x)*normvec_y, fabs(normvec_x))\
+                           / pi*180
+            else:
+                # the point is exactly at the center of the trough, this means
+                # there is no azim and dip
+                azim = 0
+                dip = 0
+
+            # use self.object_dip[oi] as maximum dip
+            if dip > self.object_dip[oi]:
+                dip = self.object_dip[oi]
+            elif dip < -self.object_dip[oi]:
+                dip = -self.object_dip[oi]
+
+            if structure == 2: # bulb
+                geo_ids[0] = self.object_facies[oi]
+                angles[0] = azim
+                angles[1] = dip
+                geo_ids[2] = self.object_num_ha[oi]
+                return
+            else:
+                # create bulb sets
+                # The facies can be found by dividing the normalized distance
+                # by the normalized bublset_d:
+                n = int(ceil((sqrt(l2) + self.object_shift[oi])*self.object_c[oi]/self.object_layer_dist[oi]))
+                geo_ids[0] = self.object_facies_array[oi,n]
+                angles[0] = azim
+                angles[1] = dip
+                geo_ids[2] = self.object_num_ha[oi]
+                return
+        else:
+            print('Structure:', structure)
+            raise NotImplementedError('This structure is not implemented yet')
-- 
2.43.0


From ba509099ecee67c21b6d6caef0c93181e596a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 06/36] fix: use the current names of the IMS options in mf6
 output

flopy does not accept outer_hclose and inner_hclose anymore, so mf6 output
failed with an exception.
---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..0ef7944 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -284,11 +284,11 @@ def to_mf6(model, fname):
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
-- 
2.43.0


From 53c6333caa478d62f5cd8c2ec5a25492b0c1047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 07/36] fix: honour the overwrite argument of run and
 --overwrite

Only the setting of the ini-file was looked at: --overwrite did not overwrite,
and run(inifile, flag_ow=False) did not protect an existing run directory if
the ini-file allows overwriting.
---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..672375d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 5bf15951cc887517deeafc83b69fc211e25bb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 08/36] fix: remove everything from an old run directory

Dangling symbolic links and special files were left behind, and a link to a
directory made the run fail.
---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 672375d..c49beb7 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -503,10 +503,10 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
-                    path.unlink()
-                elif path.is_dir():
+                if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
+                else:
+                    path.unlink()
         else:
             raise FileExistsError(
                 "Run directory already exists and overwrite flag is "
-- 
2.43.0


From 47a4f6b234b43b319afaae5c65f3f0b9406e7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 09/36] fix: let only one of several simultaneous runs create a
 run directory

Without permission to overwrite, two runs that both found no run directory
both used it and mixed their outputs.
---
 hyvr/input/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index c49beb7..4cef087 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -514,7 +514,8 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
                 "change the overwrite flag ('overwrite_old_output') "
                 "in the config file or run hyvr with --overwrite.")
     else:
-        run['rundir'].mkdir(parents=True, exist_ok=True)
+        # fails if another run created it in the meantime
+        run['rundir'].mkdir(parents=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
     with open(backup_file, 'w') as f:
-- 
2.43.0


From f139caa914862363004be41bf8849c3d2e3ed2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 10/36] fix: write the backup of the ini-file as utf-8

It is read as utf-8, but was written in the encoding of the locale, which either
failed or gave a backup that can not be read again.
---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 4cef087..51eb31d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -518,5 +518,5 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'].mkdir(parents=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
-    with open(backup_file, 'w') as f:
+    with open(backup_file, 'w', encoding='utf-8') as f:
         p.write(f)
-- 
2.43.0


From 38befdff07769fe0d927165f57372e8750d0a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 11/36] fix: keep the ini-file when overwriting its own run
 directory

Re-running from the backup in the run directory deleted that file, possibly the
only copy, before it was written again, so that a failure in between lost it.
---
 hyvr/input/parameters.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 51eb31d..7bb38ed 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -503,6 +503,9 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
+                if path.resolve() == pathlib.Path(inifile).resolve():
+                    # when re-running from the backup, this is still needed
+                    continue
                 if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
                 else:
@@ -518,5 +521,9 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'].mkdir(parents=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
-    with open(backup_file, 'w', encoding='utf-8') as f:
+    # the backup might be the ini-file itself, so it is only replaced by a
+    # complete one
+    tmp_file = run['rundir'] / (backup_file.name + '.tmp')
+    with open(tmp_file, 'w', encoding='utf-8') as f:
         p.write(f)
+    os.replace(tmp_file, backup_file)
-- 
2.43.0


From 2389cbe3a5b80f4aba6c7be39cdec77109692ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 12/36] fix: make the option modeldir work

Any value failed with a TypeError, since it was used as a path, but is a string.
---
 hyvr/input/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 7bb38ed..e9dfe71 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -145,14 +145,16 @@ def parameters(inifile):
         # either inipath or the chosen modeldir
         if run['modeldir'] is None:
             run['modeldir'] = ini_path
-        if run['modeldir'] == 'select':
+        elif run['modeldir'] == 'select':
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
                 run['modeldir'] = pathlib.Path(directory).resolve()
+        else:
+            run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From 074f7e57e37edc365b0b5e8eb17c354608482d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 13/36] fix: report a missing ini-file that is given as a Path

Formatting the message failed with a TypeError.
---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index e9dfe71..e23605c 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,7 +101,7 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {!s} not found!".format(inifile))
 
     old_format = 'dataoutputs' in dict(p['run'])
     if old_format:
-- 
2.43.0


From 3a19dc002d1255022b81391984d7651f39bceee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 14/36] fix: do not announce an output as saved if it was
 skipped

If a library for a format is missing, nothing is written.
---
 hyvr/postprocess/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 0ef7944..75eaafe 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -75,6 +75,7 @@ def create_outputs(model, realization_dir, runname, formats):
             # in case of an import error, only warn the user instead of raising
             # an error
             warnings.warn(str(e))
+            continue
         print_to_stdout('Saved', fmt, 'output to', realization_dir)
 
 
-- 
2.43.0


From 0299f02bbfd8352ff7c348de7e4e382b6002abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 15/36] fix: do not ignore errors when reading the ini-file

ConfigParser.read skips files it can not open and stops quietly when reading
fails: a run could use a part of the settings only, and store an empty backup
(which, when re-running from the backup, also lost the settings).
---
 hyvr/input/parameters.py | 41 +++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index e23605c..a9a56c6 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -59,6 +59,31 @@ def setup_from_inifile(inifile, flag_ow):
     return run, model, hydraulics
 
 
+def read_inifile(inifile):
+    """
+    Reads the inifile. Other than ``ConfigParser.read`` this does not ignore it
+    if the file can not be read (completely).
+
+    Parameters
+    ----------
+    inifile : path
+        Path to inifile.
+
+    Returns
+    -------
+    p : ConfigParser
+    """
+    p = cp.ConfigParser()
+    try:
+        with open(inifile, encoding='utf-8') as f:
+            p.read_file(f)
+    except cp.MissingSectionHeaderError:
+        # this is probably caused by a wrong encoding
+        with open(inifile, encoding='utf-8-sig') as f:
+            p.read_file(f)
+    return p
+
+
 def parameters(inifile):
     """
     Parses the inifile and returns all sections as dictionaries. Furthermore it
@@ -94,12 +119,7 @@ def parameters(inifile):
         inifile = resource_filename(__name__, str(pathlib.Path('../made.ini')))
 
     # read file
-    p = cp.ConfigParser()
-    try:
-        p.read(inifile, encoding='utf-8')
-    except cp.MissingSectionHeaderError:
-        # this is probably caused by a wrong encoding
-        p.read(inifile, encoding='utf-8-sig')
+    p = read_inifile(inifile)
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {!s} not found!".format(inifile))
 
@@ -484,12 +504,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'] = pathlib.Path(tempfile.mkdtemp())
         return
 
-    p = cp.ConfigParser()
-    try:
-        p.read(inifile, encoding='utf-8')
-    except cp.MissingSectionHeaderError:
-        # this is probably caused by a wrong encoding
-        p.read(inifile, encoding='utf-8-sig')
+    p = read_inifile(inifile)
 
     # we're now done with parsing and can create the model directory.
     run['modeldir'].mkdir(parents=True, exist_ok=True)
@@ -505,7 +520,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.resolve() == pathlib.Path(inifile).resolve():
+                if os.path.realpath(path) == os.path.realpath(inifile):
                     # when re-running from the backup, this is still needed
                     continue
                 if path.is_dir() and not path.is_symlink():
-- 
2.43.0


From e350b875efceedcedd9fbb7e07dd40302fc9fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 16/36] fix: remove the output of the testcase also if it fails

The temporary run directory was left behind.
---
 hyvr/sim.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/hyvr/sim.py b/hyvr/sim.py
index 6a873e9..8e6cf1b 100644
--- a/hyvr/sim.py
+++ b/hyvr/sim.py
@@ -31,6 +31,30 @@ def run(inifile, flag_ow=None):
 
     run_settings, model, hydraulics = hp.setup_from_inifile(inifile, flag_ow=flag_ow)
 
+    try:
+        simulate(run_settings, model, hydraulics)
+    finally:
+        if inifile == 0:
+            # this is just the testcase, so we remove the output
+            import shutil
+            runpath = run_settings['rundir']
+            if runpath.exists():
+                shutil.rmtree(runpath)
+
+
+def simulate(run_settings, model, hydraulics):
+    """
+    Generates and saves all realizations of a run.
+
+    Parameters
+    ----------
+    run_settings : dict
+        HyVR run parameters (number of simulations, where to store results)
+    model : Model object
+    hydraulics : dict
+        Parsed hydraulics section of the ini-file
+    """
+
     for sim in range(1, int(run_settings['numsim'])+1):
         # Generate facies
         model.generate_model()
@@ -56,11 +80,3 @@ def run(inifile, flag_ow=None):
         realdir.mkdir(parents=True, exist_ok=True)
         create_outputs(model, realdir, run_settings["runname"],
                        run_settings['outputs'])
-
-
-    if inifile == 0:
-        # this is just the testcase, so we remove the output
-        import shutil
-        runpath = run_settings['rundir']
-        if runpath.exists():
-            shutil.rmtree(runpath)
-- 
2.43.0


From 48bcf391d4a910e208c93f12fc3b557f437d3b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 17/36] fix: put the top of the uppermost stratum at the top of
 the domain

It was at lz, so that with z0 > 0 the cells above it did not belong to any stratum
and silently got facies 0.
---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 05c11d6..df49637 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From a9df77e7912e2285af7c683dbd316639fda3a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 18/36] fix: do not let sheets extend below their architectural
 element

Instead of the bottom of the sheet, its top was limited by the bottom of the
element.
---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index edbe07c..d25d38f 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From 4df4177f28bc7a2f960df6dcbaf3ef93825180c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 19/36] fix: make room for all dipping sets of a sheet

The number of sets depended on the shift, which also contains the position of
the domain, but not on lx: in long domains, or away from the origin, the facies
of a set was taken from outside of the array.
---
 hyvr/geo/sheet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 1e1aba6..c7b5084 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -84,9 +84,10 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # The distance to the zero-plane is at most lx/2 + ly/2 + lz in both
+            # directions
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            self.num_facies = int(np.ceil((grid.lx + grid.ly + 2*grid.lz)/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From 118b2f1ac3ae643032f69ec315b09707c4e6fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 20/36] fix: make models without heterogeneity work

The list of hydrofacies has a new name since the new ini-file format.
---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index df49637..137291d 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -282,7 +282,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From 5a538d5c9953f76d2fc623ae892c4d565e1a8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 21/36] fix: apply the trends in x-direction to the model data

The products were only assigned to local variables, so that k_xtrend changed
the conductivity tensors, but not k_iso, and n_xtrend had no effect.
---
 hyvr/geo/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 137291d..3d65c65 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -263,7 +263,7 @@ class Model:
                             k_iso *= zf_vec
                         if ae.type_params['k_xtrend'] is not None:
                             xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                            k_iso *= xf_vec[:, np.newaxis, np.newaxis]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
@@ -271,14 +271,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso *= xf_vec[:, np.newaxis, np.newaxis]
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros *= xf_vec[:, np.newaxis, np.newaxis]
 
         else:
             # Homogeneous case
-- 
2.43.0


From 45d126013f7a1046bc8a02111496b888c96f557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:45 +0000
Subject: [PATCH 22/36] fix: assign cells whose center lies exactly on a
 contact

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index dd3a92e..bd09696 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 2526c299b49936f3f7e5acd3fcd3e1fd02c7eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:45 +0000
Subject: [PATCH 23/36] fix: sort the given trough positions from top to bottom

---
 hyvr/geo/trough_ae.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
index f047294..92907a4 100644
--- a/hyvr/geo/trough_ae.py
+++ b/hyvr/geo/trough_ae.py
@@ -66,7 +66,8 @@ class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # the objects have to be sorted from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From 8185abe6ea7678c7a17ef3b06f20b23bd1bd5799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:45 +0000
Subject: [PATCH 24/36] fix: fill strata whose contact surfaces cross each
 other

---
 hyvr/geo/stratum.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/stratum.py b/hyvr/geo/stratum.py
index 6c35563..1a2eff2 100644
--- a/hyvr/geo/stratum.py
+++ b/hyvr/geo/stratum.py
@@ -48,7 +48,13 @@ class Stratum:
         # choose type of first AE
         curr_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])
         znow = self.top_surface.zmean
-        while znow > self.bottom_surface.zmean:
+        # The mean of the bottom might be above the mean of the top if the
+        # contact surfaces cross each other, but the stratum has to be filled
+        # wherever its bottom is below its top.
+        is_thin = znow <= self.bottom_surface.zmean and np.any(
+            self.bottom_surface.surface < self.top_surface.surface
+        )
+        while znow > self.bottom_surface.zmean or (is_thin and not self.aes):
 
             num_type = self.ae_type_names.index(curr_ae_type.name)
 
-- 
2.43.0


From 8f020788ec1b496d4692722ffac8c15bca35a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 25/36] fix: write as many vtr coordinates as there are cells

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 75eaafe..148e11c 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -156,9 +156,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + model.grid.dx*np.arange(model.grid.nx+1)
+        yv = model.grid.y0 + model.grid.dy*np.arange(model.grid.ny+1)
+        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz+1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From 3c6893535f76dfe3609453bff63c4f6457145adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 26/36] fix: write as many mf6 layer bottoms as there are
 layers

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 148e11c..6c3704a 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -300,7 +300,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.around(ztop - model.grid.dz*np.arange(model.grid.nz+1), decimals=3)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From 64ddaee822aae70f4739cdc4e4317e8864bf1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:02 +0000
Subject: [PATCH 27/36] fix: require bulbset_dist for troughs with bulb sets

A missing bulbset_dist was only noticed after the run directory had been
created (or emptied).
---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index a9a56c6..783913d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -302,7 +302,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] in ['bulb', 'bulb_sets', 'random']:
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From 791d20d9e0beb99bcf24519cf4cb55ae43bd0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:02 +0000
Subject: [PATCH 28/36] fix: reject strata with unknown architectural elements

An unknown element in ae_in_strata was only noticed when the model was
generated, after the old run directory had been emptied.
---
 hyvr/input/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 783913d..df30cf8 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -315,7 +315,11 @@ def parse_inifile(p):
             else:
                 elements[section]['lag_facies'] = -1
 
-
+    # all architectural elements in the strata must be described
+    for ae_list in strata['ae_in_strata']:
+        for ae in ae_list:
+            if ae not in elements:
+                raise MissingSectionError(ae)
 
     return run, model, strata, hydraulics, flowtrans, elements
 
-- 
2.43.0


From 29c980e67f3fab9e37d13627724e7012e0f399ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:14 +0000
Subject: [PATCH 29/36] fix: remove links to the ini-file from an old run
 directory

Links to the ini-file that lay in an overwritten run directory were left there,
only the ini-file itself has to stay.
---
 hyvr/input/parameters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index df30cf8..7f73b72 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -521,10 +521,16 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if run['rundir'].exists():
         if overwrite_old_output is True:
             # If it exists, we just delete everything in it
+            # (but the ini-file, or the link through which it is given)
+            rundir = os.path.realpath(run['rundir'])
+            ini_paths = [
+                os.path.realpath(inifile),
+                os.path.join(os.path.realpath(os.path.dirname(inifile)), os.path.basename(inifile)),
+            ]
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if os.path.realpath(path) == os.path.realpath(inifile):
+                if os.path.join(rundir, f) in ini_paths:
                     # when re-running from the backup, this is still needed
                     continue
                 if path.is_dir() and not path.is_symlink():
-- 
2.43.0


From cf85e2f49511558b8b70312135fb56c6788972fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:25 +0000
Subject: [PATCH 30/36] fix: report write errors that h5py ignores when closing
 a dataset

---
 hyvr/postprocess/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 6c3704a..a089c8a 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -136,7 +136,9 @@ def to_hdf5(model, fname):
         import h5py
         with h5py.File(fname+'.h5', 'w') as hf:
             for key in model.data:
-                hf.create_dataset(key, data=model.data[key], compression=True)
+                dataset = hf.create_dataset(key, data=model.data[key], compression=True)
+                # h5py ignores errors when closing a dataset
+                dataset.flush()
     except ImportError as e:
         raise type(e)(str(e) + ", h5 output not possible!")
 
-- 
2.43.0


From b4c55f6019a2d372c835373de511c89852ce8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:34 +0000
Subject: [PATCH 31/36] fix: place channels relative to the origin of the
 domain

---
 hyvr/geo/channel_ae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.py b/hyvr/geo/channel_ae.py
index abeb742..b06ca96 100644
--- a/hyvr/geo/channel_ae.py
+++ b/hyvr/geo/channel_ae.py
@@ -134,8 +134,8 @@ class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 1d5431bc98cead27ea4c61a9f85887e743b743ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 32/36] fix: measure distances for random fields from a cell,
 not from between two cells

The covariance of a field was evaluated half a cell away from zero for an
even number of cells, so that its variance and correlation were wrong.
---
 hyvr/geo/grid.py  |  6 +++---
 hyvr/geo/grid.pyx |  6 +++---
 hyvr/utils.py     | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hyvr/geo/grid.py b/hyvr/geo/grid.py
index 3f02e8a..cd2ef95 100644
--- a/hyvr/geo/grid.py
+++ b/hyvr/geo/grid.py
@@ -63,9 +63,9 @@ class Grid:
         # The order here is such that the final matrices have shape (nx, ny, nz)
         self.Y, self.X, self.Z = np.meshgrid(self.y, self.x, self.z)
         # centered grids are necessary for specsim
-        self.X_centered = self.X - (np.min(self.X) + np.max(self.X))/2
-        self.Y_centered = self.Y - (np.min(self.Y) + np.max(self.Y))/2
-        self.Z_centered = self.Z - (np.min(self.Z) + np.max(self.Z))/2
+        self.X_centered = self.X - self.X[self.nx//2, 0, 0]
+        self.Y_centered = self.Y - self.Y[0, self.ny//2, 0]
+        self.Z_centered = self.Z - self.Z[0, 0, self.nz//2]
 
 
 
diff --git a/hyvr/geo/grid.pyx b/hyvr/geo/grid.pyx
index 3f02e8a..cd2ef95 100644
--- a/hyvr/geo/grid.pyx
+++ b/hyvr/geo/grid.pyx
@@ -63,9 +63,9 @@ class Grid:
         # The order here is such that the final matrices have shape (nx, ny, nz)
         self.Y, self.X, self.Z = np.meshgrid(self.y, self.x, self.z)
         # centered grids are necessary for specsim
-        self.X_centered = self.X - (np.min(self.X) + np.max(self.X))/2
-        self.Y_centered = self.Y - (np.min(self.Y) + np.max(self.Y))/2
-        self.Z_centered = self.Z - (np.min(self.Z) + np.max(self.Z))/2
+        self.X_centered = self.X - self.X[self.nx//2, 0, 0]
+        self.Y_centered = self.Y - self.Y[0, self.ny//2, 0]
+        self.Z_centered = self.Z - self.Z[0, 0, self.nz//2]
 
 
 
diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..b9beefa 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -455,8 +455,8 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
             rectangular_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1] = True
             selected_X = grid.X[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,0]
             selected_Y = grid.Y[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,0]
-            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X))/2
-            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y))/2
+            selected_X_centered = selected_X - selected_X[selected_X.shape[0]//2, 0]
+            selected_Y_centered = selected_Y - selected_Y[0, selected_Y.shape[1]//2]
             selection_mask_small = selection_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1]
 
             h_square = (selected_X_centered/corl[0])**2 \
@@ -478,9 +478,9 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
             selected_X = grid.X[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
             selected_Y = grid.Y[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
             selected_Z = grid.Z[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
-            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X))/2
-            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y))/2
-            selected_Z_centered = selected_Z - (np.min(selected_Z) + np.max(selected_Z))/2
+            selected_X_centered = selected_X - selected_X[selected_X.shape[0]//2, 0, 0]
+            selected_Y_centered = selected_Y - selected_Y[0, selected_Y.shape[1]//2, 0]
+            selected_Z_centered = selected_Z - selected_Z[0, 0, selected_Z.shape[2]//2]
             selection_mask_small = selection_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
 
             h_square = (selected_X_centered/corl[0])**2 \
-- 
2.43.0


From 03f4b17520a4a435f6f821e88ee49bc2bc42c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 33/36] fix: remove only the mean from the spectrum of random
 fields

syy[0] is a whole row or plane of the spectrum; without it fields had too
small a variance, and none at all with a single cell along x.
---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index b9beefa..872638b 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -512,7 +512,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy.flat[0] = 0
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 3ed4c223bcd8c074aac5f2a3f4de420cbbe7d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 34/36] fix: dipping layers of sheets were tilted the wrong way

The plane of the layers has to agree with dip and azimuth of the cells as they
are used for the conductivity tensor (and for troughs and channels).
---
 hyvr/geo/sheet.py  | 4 ++--
 hyvr/geo/sheet.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index c7b5084..ca079bf 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -60,8 +60,8 @@ class Sheet:
             cos_dip = np.cos(self.dip*np.pi/180)
             sin_azim = np.sin(self.azim*np.pi/180)
             cos_azim = np.cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
diff --git a/hyvr/geo/sheet.pyx b/hyvr/geo/sheet.pyx
index 48c1bfd..d6c1c44 100644
--- a/hyvr/geo/sheet.pyx
+++ b/hyvr/geo/sheet.pyx
@@ -45,8 +45,8 @@ cdef class Sheet:
             cos_dip = cos(self.dip*np.pi/180)
             sin_azim = sin(self.azim*np.pi/180)
             cos_azim = cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
-- 
2.43.0


From f44ca5fc636ea1396295d4760adf0d9c159e278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 35/36] fix: contact models in capitals are accepted by the
 parser, but every run with them failed

---
 hyvr/geo/contact_surface_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..1948585 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def parse_contact_model(param_list, depth=False):
-    mode = param_list[0].strip("\"'")
+    mode = param_list[0].strip("\"'").lower()
     cm = {'mode': mode}
     param_idx = 1
     if depth:
@@ -11,9 +11,9 @@ def parse_contact_model(param_list, depth=False):
         cm['z'] = float(param_list[1])
 
     # make sure the length is right
-    if mode.lower() == 'flat' and len(param_list) - param_idx == 0:
+    if mode == 'flat' and len(param_list) - param_idx == 0:
         return cm
-    elif mode.lower() == 'random' and len(param_list) - param_idx == 3:
+    elif mode == 'random' and len(param_list) - param_idx == 3:
         cm['var'] = float(param_list[param_idx])
         cm['corlx'] = float(param_list[param_idx+1])
         cm['corly'] = float(param_list[param_idx+2])
-- 
2.43.0


From 6477a1df7d4381d27c5296775fee81eb51ac002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:34 +0000
Subject: [PATCH 36/36] fix: expand a single number given for a list of lists
 as documented

---
 hyvr/input/option_parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..b501180 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -294,6 +294,9 @@ class Option():
                                 raise ValueError('Option ' + self.name + ' in section ' +
                                                 section.name + ' can not be expanded!')
                         shape = expand_shape(shape)
+                    elif all(map(lambda x: x != -1, shape)):
+                        # a single number is expanded to all dimensions
+                        shape = expand_shape(shape)
 
                 # Now we have an expanded shape, so only two tasks remain:
                 # * auto-expansion
-- 
2.43.0

