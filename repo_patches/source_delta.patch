From 01c6ffae41af179d36a43f65e842b6fc11dfbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/32] fix: reject orders with |m| > n in ZernPol
 initialization

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..95db5eb 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -117,6 +117,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| should not exceed n")
                                 elif self.__n < 0:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n > 54:
-- 
2.43.0


From c093e9011fb941a2cf105de5bc15622c8a3acf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 02/32] fix: return Python int from get_fringe_index, so it is
 accepted by fringe2osa and ZernPol

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 95db5eb..3895c86 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -713,7 +713,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return int((1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2)
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From 9298a44218a346c854fef6d8b1af630a5f450a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/32] fix: raise ValueError for indices without matching
 orders instead of returning wrong orders

---
 src/zernpy/zernikepol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 3895c86..d2fbb9d 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -158,8 +158,8 @@ class ZernPol:
                         if osa_i < 0:
                             raise ValueError("OSA / ANSI index should be non-negative integer")
                         elif osa_i > 1539:
-                            ValueError("Initialization of Zernike with OSA index higher than 1539"
-                                       + " is meaningless because of very slow calculation performance")
+                            raise ValueError("Initialization of Zernike with OSA index higher than 1539"
+                                             + " is meaningless because of very slow calculation performance")
                         else:
                             self.__osa_index = osa_i; self.__initialized = True
                             self.__m, self.__n = ZernPol.index2orders(osa_index=self.__osa_index)
@@ -181,8 +181,8 @@ class ZernPol:
                         if noll_i < 1:
                             raise ValueError("Noll index should be not less than 1 integer")
                         elif noll_i > 1540:
-                            ValueError("Initialization of Zernike with Noll index higher than 1540"
-                                       + " is meaningless because of very slow calculation performance")
+                            raise ValueError("Initialization of Zernike with Noll index higher than 1540"
+                                             + " is meaningless because of very slow calculation performance")
                         else:
                             self.__noll_index = noll_i; self.__initialized = True
                             self.__m, self.__n = ZernPol.index2orders(noll_index=self.__noll_index)
@@ -758,6 +758,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError("There are no orders found for the provided index")
         return m, n
 
     @staticmethod
-- 
2.43.0


From 8422413337391057355a8583997ac57c7a05b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/32] fix: check steps in gen_polar_coordinates as documented

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index d2fbb9d..a0d18e2 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1018,9 +1018,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if r_step <= 0.0 or r_step > 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if theta_rad_step <= 0.0 or theta_rad_step > np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From 63ed950e385021bf3cb1d8b5bcc85c6798c93d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/32] fix: use radial polynomial in the product rule for
 derivatives of orders > 38 with m == 0

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..e636aa3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From b04bd5b63da5dd4be6c4957e3e6ea57e7f003d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 06/32] fix: include norm and triangular function in compiled
 polynomial value for |m| == n and |m| == n-2

---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..3957009 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
-- 
2.43.0


From 0de3ff00dec969850e19ab98e6eb051a024bde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 07/32] fix: compute k from the provided wavelength and reject
 zero NA in set_physical_props

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..7ee2cae 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -185,12 +185,12 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if NA <= 0.0 or NA > 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-- 
2.43.0


From 2710913c5ac3f167ea8bbc1b04a9a4aae6f9d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 08/32] fix: raise ValueError for not acceptable argument of
 ZernPSF

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 7ee2cae..951b964 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -145,7 +145,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From 0be0520ead5e185e5e3b5c0c3824505f7f3f6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 09/32] fix: raise ValueError if single element of Sequence
 isn't ZernPol instance in ZernPSF

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 951b964..c2e2e14 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
-- 
2.43.0


From f8c3d0b87f256f0433ffc8e3134c417db474902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 10/32] fix: use the default kernel size independently on
 suppress_warnings flag

---
 src/zernpy/zernpsf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index c2e2e14..bfadfdd 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -370,9 +370,11 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
-        if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
-            warnings.warn(self.__warn_message); self.__warn_message = ""
+        if not self.__physical_props_set:
+            self.kernel_size = 19
+            if not suppress_warnings:
+                self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+                warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
         if numba_installed and accelerated is None:
-- 
2.43.0


From 59a175bd74873c2a901aa4d6f2781a3441dbacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 11/32] fix: refresh airy flag and stored polynomials on
 reading JSON file with single polynomial

---
 src/zernpy/zernpsf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index bfadfdd..a147624 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -636,11 +636,12 @@ class ZernPSF:
                     ps = item; read_props += 1
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = ()
+                    self.airy = osa_index == 0
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
-                        self.zernpol = ZernPol(osa=osa_indices[0])
+                        self.zernpol = ZernPol(osa=osa_indices[0]); self.polynomials = ()
                         if osa_indices[0] == 0:
                             self.airy = True
                         else:
-- 
2.43.0


From b923dd377f8046361c81975b2b043a1f9b229af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 12/32] fix: keep the kernel size read from JSON file

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index a147624..eabdd1b 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -652,7 +652,9 @@ class ZernPSF:
                         self.polynomials = pols; self.zernpol = None; self.airy = False
             # Assign read physical properties
             if read_props == 8:
+                kernel_size = self.kernel_size  # read from the file
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.kernel_size = kernel_size  # restore it, because it's re-estimated by the method above
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 1eff960ebb7c5af24ea69dd16fc7a4fa6dbb10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 13/32] fix: accept string as the path in save_json

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index eabdd1b..a445475 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -572,7 +572,7 @@ class ZernPSF:
         """
         if abs_path is None:
             abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
+        if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-- 
2.43.0


From c89d9cb06338e60069a54e819b277307281bcec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 14/32] fix: provide NA for kernel size estimation and reject
 several polynomials in get_kernel_parallel

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index a445475..02d4e20 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -735,9 +735,9 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
-            self.kernel_size = 3
+            raise ValueError("Parallel computation is implemented only for a single polynomial")
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
         calculated_points = 0
         for i in range(self.kernel_size):
-- 
2.43.0


From a01273c7ce6d0e8ed721f010847f91ef69706fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 15/32] fix: allow initialize parallel workers again after
 their release

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 02d4e20..5af86f9 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -766,7 +766,7 @@ class ZernPSF:
 
         """
         if self.__ParallelCalc is not None:
-            self.__ParallelCalc.close()
+            self.__ParallelCalc.close(); self.__ParallelCalc = None
 
 
 # %% Utility functions
-- 
2.43.0


From 4f1e80b0e3449a7d979624988b39eeb40e93ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 16/32] fix: do not share lists with workers, triggers and
 queues between DispenserManager instances

---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..fe95e72 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -79,6 +79,7 @@ class DispenserManager():
         else:
             self.__results = [None]*len(params_list); self.__parameters_vector = params_list
         # Initializing the pool with Processes
+        self.__workers_pool = []; self.__triggers = []; self.__queues = []  # prevent sharing of class lists between instances
         self.__global_live_trigger = Event(); self.__global_live_trigger.set(); time.sleep(0.01)
         # print(f"Initializing {self.workers_number} Processes")
         for i in range(self.workers_number):
-- 
2.43.0


From 34feab6b3b004ab01e9b0d0590cae331a7cfec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 17/32] fix: include all integration points in
 get_psf_point_r_parallel if workers aren't initialized

---
 src/zernpy/zernpsf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 5af86f9..691cc45 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -710,6 +710,11 @@ class ZernPSF:
             self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
+        else:  # workers aren't initialized, perform the same computation without them
+            even_sum = np.sum(np.asarray([radial_integral(self.zernpol, r, theta, i*h_phi, self.alpha, self.n_int_r_points)
+                                          for i in range(2, self.n_int_phi_points-2, 2)]))
+            odd_sum = np.sum(np.asarray([radial_integral(self.zernpol, r, theta, i*h_phi, self.alpha, self.n_int_r_points)
+                                         for i in range(1, self.n_int_phi_points-1, 2)]))
         # Simpson integration rule implementation
         yA = radial_integral(self.zernpol, r, theta, 0.0, self.alpha, self.n_int_r_points)
         yB = radial_integral(self.zernpol, r, theta, 2.0*pi, self.alpha, self.n_int_r_points)
-- 
2.43.0


From cabd92092761d0e994205290af6db7f3f580cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 18/32] fix: include all interior nodes into the Simpson
 integration over the angle

---
 src/zernpy/calculations/calc_psfs.py       | 16 ++++++++--------
 src/zernpy/calculations/calc_psfs_numba.py |  8 ++++----
 src/zernpy/zernpsf.py                      |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..33f9bbf 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -217,9 +217,9 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
     """
     # Integration on the pupil radius using Simpson equation
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -263,14 +263,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -592,9 +592,9 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 3957009..398ad0a 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -258,9 +258,9 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
 
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -541,10 +541,10 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 691cc45..986b682 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -701,20 +701,20 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         else:  # workers aren't initialized, perform the same computation without them
             even_sum = np.sum(np.asarray([radial_integral(self.zernpol, r, theta, i*h_phi, self.alpha, self.n_int_r_points)
-                                          for i in range(2, self.n_int_phi_points-2, 2)]))
+                                          for i in range(2, self.n_int_phi_points, 2)]))
             odd_sum = np.sum(np.asarray([radial_integral(self.zernpol, r, theta, i*h_phi, self.alpha, self.n_int_r_points)
-                                         for i in range(1, self.n_int_phi_points-1, 2)]))
+                                         for i in range(1, self.n_int_phi_points, 2)]))
         # Simpson integration rule implementation
         yA = radial_integral(self.zernpol, r, theta, 0.0, self.alpha, self.n_int_r_points)
         yB = radial_integral(self.zernpol, r, theta, 2.0*pi, self.alpha, self.n_int_r_points)
-- 
2.43.0


From 7f6e06c54bce053c1d83d064a8fa8fa5f1e38fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 19/32] fix: do not include the end point r = 1 twice in the
 integration over radii because of rounding in np.arange

---
 src/zernpy/calculations/calc_psfs.py       | 6 +++---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 33f9bbf..a439fa8 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -129,7 +129,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -164,7 +164,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -558,7 +558,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 398ad0a..180e657 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -501,7 +501,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From 59352eea6e6f70c6beed0ad7e354bdb581e4dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 20/32] fix: prevent division by zero on scaling of convolved
 image without positive values

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index a439fa8..78f79a1 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -729,7 +729,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel > 0.0:
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 90588ddd6315fa947cabdb318ed29c3ae7354913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 21/32] fix: return new array with radial polynomial values for
 |m| = n = 1 instead of the input array itself

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index e636aa3..f9bb227 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From 6bd299bfae63cde66df3a1a618ca826c90b1e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 22/32] fix: do not save partially the physical properties
 rejected by set_physical_props

---
 src/zernpy/zernpsf.py | 45 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 986b682..7f0ade2 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,31 +192,38 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
-        self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
-        self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-        self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
+        pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
+        pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
         if pixel_physical_size <= 0.0:
             raise ValueError("Pixel physical size should be positive real number")
-        if pixel_physical_size > self.pixel_size_nyquist:
-            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {self.pixel_size_nyquist_eStr}"
+        if pixel_physical_size > pixel_size_nyquist:
+            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
+        # Check consistency of provided type of polynomials and coefficients
+        if hasattr(expansion_coeff, '__len__'):
+            coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
+            if coeffs_len != len(self.polynomials) and not (coeffs_len == 1 and len(self.polynomials) == 0):
+                raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
+                                 + f"of polynomials ({len(self.polynomials)})")
+        elif self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
+            raise ValueError(f"Class initialized with #{len(self.polynomials)} polynomials and expected "
+                             + "to get their amplitudes in Sequence (as 'expansion_coeff' parameter)")
+        # Save accepted parameters as the class properties only after all checks
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
+        self.NA = NA; self.wavelength = wavelength
+        self.pixel_size_nyquist = pixel_size_nyquist; self.pixel_size_nyquist_eStr = pixel_size_nyquist_eStr
         self.pixel_size = pixel_physical_size
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
-            if coeffs_len != len(self.polynomials):
-                if coeffs_len == 1 and len(self.polynomials) == 0:  # polynomials maybe provided also as a sequence with 1 element
-                    expansion_coeff = float(expansion_coeff[0])
-                    # Sanity check for the expansion coefficient of the polynomial
-                    self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
-                    if len(self.__warn_message) > 0:
-                        warnings.warn(self.__warn_message); self.__warn_message = ""
-                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
-                else:
-                    raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
-                                     + f"of polynomials ({len(self.polynomials)})")
+            if coeffs_len != len(self.polynomials):  # polynomials maybe provided also as a sequence with 1 element
+                expansion_coeff = float(expansion_coeff[0])
+                # Sanity check for the expansion coefficient of the polynomial
+                self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
+                if len(self.__warn_message) > 0:
+                    warnings.warn(self.__warn_message); self.__warn_message = ""
+                self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
             else:
                 self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
@@ -226,10 +233,6 @@ class ZernPSF:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
                 self.amplitudes = self.coefficients / self.wavelength
         else:
-            # Check consistency of provided type of polynomials and coefficients
-            if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
-                raise ValueError(f"Class initialized with #{len(self.polynomials)} polynomials and expected "
-                                 + "to get their amplitudes in Sequence (as 'expansion_coeff' parameter)")
             # explicitly conversion to float for raising implicit conversion errors if not valid type provided
             if not isinstance(expansion_coeff, float):
                 expansion_coeff = float(expansion_coeff)
-- 
2.43.0


From f2e9eb5919f8cc9d59e2417d94faac5bf22a3b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 23/32] fix: do not save the kernel size if
 set_calculation_props rejects numbers of integration points

---
 src/zernpy/zernpsf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 7f0ade2..ad9f653 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -298,6 +298,11 @@ class ZernPSF:
         # Sanity check for kernel size
         if kernel_size < 3:
             raise ValueError("Kernel size should be more than 3")
+        # Sanity checks for n_integration_points_r and n_integration_points_phi
+        if n_integration_points_r < 20:
+            raise ValueError("# of integration points for radius should be not less than 20")
+        if n_integration_points_phi < 36:
+            raise ValueError("# of integration points for angle phi should be not less than 36")
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
@@ -310,11 +315,6 @@ class ZernPSF:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
-        # Sanity checks for n_integration_points_r and n_integration_points_phi
-        if n_integration_points_r < 20:
-            raise ValueError("# of integration points for radius should be not less than 20")
-        if n_integration_points_phi < 36:
-            raise ValueError("# of integration points for angle phi should be not less than 36")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From 28d647c8252f3596ad18faaaca6cc52c1c4d1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 24/32] fix: restore airy flag for several polynomials on
 reading JSON file as the class initialization sets it

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index ad9f653..ece25f6 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -652,7 +652,7 @@ class ZernPSF:
                     else:
                         for index in osa_indices:
                             pols.append(ZernPol(osa=index))
-                        self.polynomials = pols; self.zernpol = None; self.airy = False
+                        self.polynomials = pols; self.zernpol = None; self.airy = 0 in osa_indices
             # Assign read physical properties
             if read_props == 8:
                 kernel_size = self.kernel_size  # read from the file
-- 
2.43.0


From dd0d81d4c2a233b263b2a7ff076a84ed496f007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 25/32] fix: do not repeat the end points in
 gen_polar_coordinates because of rounding in np.arange

---
 src/zernpy/zernikepol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index a0d18e2..55336f6 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1022,7 +1022,9 @@ class ZernPol:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
         if theta_rad_step <= 0.0 or theta_rad_step > np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
-        Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
+        # Stop values are slightly less than the end points + steps, so rounding doesn't cause the repeated end points
+        Rs = np.arange(0.0, 1.0 + (1.0 - 1E-9)*r_step, r_step)
+        Thetas = np.arange(0.0, 2.0*np.pi + (1.0 - 1E-9)*theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
         if Rs[Rs.shape[0]-1] > 1.0:
             Rs[Rs.shape[0]-1] = 1.0
-- 
2.43.0


From c637ccd78226d9c70889aa7deee9dc05c4ef9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 26/32] fix: reject empty sequence of coefficients in
 set_physical_props before saving of other parameters

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index ece25f6..141f04c 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -203,7 +203,7 @@ class ZernPSF:
         # Check consistency of provided type of polynomials and coefficients
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
-            if coeffs_len != len(self.polynomials) and not (coeffs_len == 1 and len(self.polynomials) == 0):
+            if coeffs_len != max(len(self.polynomials), 1):  # single polynomial isn't stored in the sequence of polynomials
                 raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                  + f"of polynomials ({len(self.polynomials)})")
         elif self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
-- 
2.43.0


From be1ffad297af743e62bd45e66b789e359ee44fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 27/32] fix: store copies of the provided sequences of
 polynomials and coefficients in ZernPSF

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 141f04c..3ffb5dd 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -139,7 +139,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = tuple(zernpol); self.zernpol = None
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
@@ -225,7 +225,7 @@ class ZernPSF:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
                 self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                self.coefficients = np.array(expansion_coeff)  # conversion (copying) to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
-- 
2.43.0


From 9393a3fdccae1d759d8b1e2859033e85a65dbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 28/32] fix: round convolved image before conversion to the
 integer type instead of truncation

---
 src/zernpy/calculations/calc_psfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 78f79a1..d568c14 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -731,6 +731,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
         if max_conv_pixel > 0.0:
             scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+    if np.issubdtype(img_type, np.integer):
+        convolved_img = np.rint(convolved_img)  # conversion below truncates values, e.g. 254.9999999 -> 254
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 3e0d524df81482e568687f074e6c52d5e9a37f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 29/32] fix: fit phases provided for the mesh with equal
 numbers of radii and angles

---
 src/zernpy/calculations/fit_zernike_pols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/fit_zernike_pols.py b/src/zernpy/calculations/fit_zernike_pols.py
index 77144a7..3ddf02c 100644
--- a/src/zernpy/calculations/fit_zernike_pols.py
+++ b/src/zernpy/calculations/fit_zernike_pols.py
@@ -199,7 +199,7 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
     if len(polynomials) > 0:
         # Calculation of Zernike polynomials values in the polar coordinates composed in radii, thetas vectors
         for j in range(len(polynomials)):
-            if cropped_radii_vector.shape[0] == cropped_thetas_vector.shape[0]:
+            if cropped_radii_vector.shape[0] == cropped_thetas_vector.shape[0] == vector_length:
                 zernike_values[:, j] = polynomials[j].polynomial_value(cropped_radii_vector, cropped_thetas_vector)
             else:
                 thetas_length = cropped_thetas_vector.shape[0]
-- 
2.43.0


From 51beca13bed6db38c9e264a9a6e5c9efa56f4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 30/32] fix: warn about a missing polynomial in the JSON file
 instead of combining its parameters with the previous one

---
 src/zernpy/zernpsf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 3ffb5dd..7652181 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -640,7 +640,7 @@ class ZernPSF:
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
                     osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = ()
-                    self.airy = osa_index == 0
+                    self.airy = osa_index == 0; read_props += 1
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
@@ -653,8 +653,9 @@ class ZernPSF:
                         for index in osa_indices:
                             pols.append(ZernPol(osa=index))
                         self.polynomials = pols; self.zernpol = None; self.airy = 0 in osa_indices
+                    read_props += 1
             # Assign read physical properties
-            if read_props == 8:
+            if read_props == 9:
                 kernel_size = self.kernel_size  # read from the file
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
                 self.kernel_size = kernel_size  # restore it, because it's re-estimated by the method above
-- 
2.43.0


From 8838566f38b32d3829ffc9b4aa0dc1cb35fe34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 31/32] fix: text of a polynomial without a name contains its
 orders and indices

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 55336f6..a5a1335 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -297,7 +297,7 @@ class ZernPol:
         if len(name) > 0:
             return name + pol_signature
         else:
-            return "Zernike polynomial"
+            return "Zernike polynomial" + pol_signature
 
     def __gt__(self, other) -> bool:
         """
-- 
2.43.0


From b8136835102a8475de5ae6c5309c21afa982648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:48 +0000
Subject: [PATCH 32/32] fix: warn about all numba versions older than the
 recommended one, also of two-part version texts

---
 src/zernpy/zernpsf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 7652181..f6fe9f4 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -825,10 +825,9 @@ def force_get_psf_compilation(verbose_report: bool = False) -> Union[tuple, None
         # Check the version of numba for guarantee working of compilation calls
         try:
             if int(numba_ver_n[0]) == 0:
-                if int(numba_ver_n[1]) <= 57:
-                    if int(numba_ver_n[2]) < 1:
-                        __warn_message = "\nRecommended numba version for compilation >= 0.57.1"; warnings.warn(__warn_message)
-        except ValueError:
+                if int(numba_ver_n[1]) < 57 or (int(numba_ver_n[1]) == 57 and int(numba_ver_n[2]) < 1):
+                    __warn_message = "\nRecommended numba version for compilation >= 0.57.1"; warnings.warn(__warn_message)
+        except (ValueError, IndexError):
             __warn_message = "\nCannot parse 'numba' version, expected in format 'x.yy.zz' - all integers"; warnings.warn(__warn_message)
         # Compilation of methods for single polynomial PSF calculation
         NA = 0.2; wavelength = 0.55; pixel_size = wavelength / 0.82; ampl = 0.042
-- 
2.43.0

