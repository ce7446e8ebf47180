From d9a9dd2972532bee3248c07bd04ba43ba5784134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 01/97] fix: steady state solver crashed on its first step with
 more than one sediment fraction

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..e791bf5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -738,7 +738,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] != None:
+            if p['grain_dist'] is not None:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From 3d28950861a8f857613e39743beef3d6a6ca838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 02/97] fix: initial fraction weights were malformed when the
 grain size distribution is given per layer

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e791bf5..b3af72d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -739,7 +739,7 @@ class AeoLiS(IBmi):
         if self.t == 0.:
             # use initial guess for first time step
             if p['grain_dist'] is not None:
-                w = p['grain_dist'].reshape((1,1,-1))
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
             else:
@@ -1113,7 +1113,7 @@ class AeoLiS(IBmi):
                 w = w_init.copy()
             else:
                 # use initial guess for first time step
-                w = p['grain_dist'].reshape((1,1,-1))
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
         else:
@@ -1474,7 +1474,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
+            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
@@ -1884,7 +1884,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
+            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
-- 
2.43.0


From 50d44159d1a123581ffb493409c372ff19d569ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 03/97] fix: default output variables 'mass' and 'pickup' were
 joined into an unknown name

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..d74ae45 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
-- 
2.43.0


From b6ef1cf532aa17cac5a1a46b324e45ab79aa4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 04/97] fix: first time step crashed when no output record was
 written before it

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index b3af72d..00d9539 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2400,6 +2400,7 @@ class AeoLiSRunner(AeoLiS):
         self.n = 0 # time step counter
         self.o = {} # output stats
 
+        self.clear = False
         self.changed = False
         self.cwd = None
 
-- 
2.43.0


From 604b2a164779cdcaf1cfd56ba700f5c2f0a79dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 05/97] fix: bed level change limiter ignored erosion and could
 yield a negative time step

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 00d9539..339c2d0 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -628,9 +628,9 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, 1.)
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.any(self.s['dzb'] != 0.) and self.dt_prev != 0.:
             
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
+            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
-- 
2.43.0


From b61eac76ea0f0421da4b1f6e957e1c0816625b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 06/97] fix: restart files could be neither written nor read

---
 aeolis/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 339c2d0..170423e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -99,6 +99,11 @@ class ModelState(dict):
         super(ModelState, self).__init__(*args, **kwargs)
 
 
+    def __reduce__(self):
+        """Restores the set of mutable variables after the items when unpickled"""
+        return (self.__class__, (), self.__dict__, None, iter(self.items()))
+
+
     def __setitem__(self, k:str, v:Any) -> None:
         """sets new and existing mutable model variables and thier values 
         to the model state
@@ -2850,7 +2855,7 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
@@ -2871,7 +2876,7 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
                          'p':self.p,
                          's':self.s,
-- 
2.43.0


From 2405435e61f7fd8aafd12956ab85f31fadfae271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 07/97] fix: restarted run forgot the previous time step that
 limits the next one

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 170423e..64485ee 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2859,6 +2859,7 @@ class AeoLiSRunner(AeoLiS):
                     state = pickle.load(fp)
 
                     self.t = state['t']
+                    self.dt = state.get('dt', self.dt)
                     self.p = state['p']
                     self.s = state['s']
                     self.l = state['l']
@@ -2878,6 +2879,7 @@ class AeoLiSRunner(AeoLiS):
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
         with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
+                         'dt':self.dt,
                          'p':self.p,
                          's':self.s,
                          'l':self.l,
-- 
2.43.0


From 37eb8f80b3b44fdd8616ef4e28fabc8048c9e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 08/97] fix: progress indicator crashed in restarted runs

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 64485ee..ad5d203 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2400,6 +2400,7 @@ class AeoLiSRunner(AeoLiS):
         self.tout = 0.
         self.tlog = 0.
         self.plog = -1.
+        self.dt_array = []
         self.trestart = 0.
 
         self.n = 0 # time step counter
-- 
2.43.0


From b307b368abb85043e36ae6962c263f81f96e47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 09/97] fix: explicit scheme never advanced in time once the
 wind dropped to zero

---
 aeolis/model.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index ad5d203..c5f3f53 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -592,16 +592,14 @@ class AeoLiS(IBmi):
         time step is given that is maximized by the CFL condition in
         case of an explicit numerical scheme.
 
-        Returns True except when:
+        When no time step could be determined from the CFL condition,
+        for example when there is no wind and the numerical scheme is
+        explicit, the time step is set arbitrarily to one second.
 
-        1. No time step could be determined, for example when there is
-        no wind and the numerical scheme is explicit. In this case the
-        time step is set arbitrarily to one second.
-
-        2. Or when the time step is smaller than -1. In this case the
-        time is updated with the absolute value of the time step, but
-        no model execution is performed. This funcionality can be used
-        to skip fast-forward in time.
+        Returns True except when the time step is smaller than -1. In
+        this case the time is updated with the absolute value of the
+        time step, but no model execution is performed. This
+        funcionality can be used to skip fast-forward in time.
 
         Parameters
         ----------
@@ -631,7 +629,6 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, self.p['CFL'] / dtref)
                 else:
                     self.dt = np.minimum(self.dt, 1.)
-                    return False
            
         if self.p['max_bedlevel_change'] != 999. and np.any(self.s['dzb'] != 0.) and self.dt_prev != 0.:
             
-- 
2.43.0


From 2521d66af4d8c6ad369d819b64860bc2316af299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 10/97] fix: fast-forwarding left the grid in its rotated
 orientation

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index c5f3f53..9487175 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -296,6 +296,8 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            # no model execution, rotate grid back before returning
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From 3ee71b17552ee15417a09d0f935dff67b22c531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 11/97] fix: first step after fast-forwarding could get a
 negative time step

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9487175..c50901b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -632,7 +632,7 @@ class AeoLiS(IBmi):
                 else:
                     self.dt = np.minimum(self.dt, 1.)
            
-        if self.p['max_bedlevel_change'] != 999. and np.any(self.s['dzb'] != 0.) and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.any(self.s['dzb'] != 0.) and self.dt_prev > 0.:
             
             dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
-- 
2.43.0


From 8827112a38c8c54f43b653d1ac58f1022ffd0c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 12/97] fix: variables and parameters with an underscore in
 their name could not be read or written to output

---
 aeolis/model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c50901b..5f3d12b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -80,6 +80,9 @@ class StreamFormatter(logging.Formatter):
 # initialize logger
 logger = logging.getLogger(__name__)
 
+# postfixes of spatial grid names that refer to an output statistic
+STATISTICS = ['avg', 'sum', 'var', 'min', 'max']
+
 __version__ = importlib.metadata.version('aeolis')
 
 if not __version__ :
@@ -2633,9 +2636,9 @@ class AeoLiSRunner(AeoLiS):
         self.clear = clear
 
         if '_' in var:
-            var, stat = var.split('_')
-            if var in self.o:
-                return self.get_statistic(var, stat)
+            var0, stat = var.rsplit('_', 1)
+            if var0 in self.o and stat in STATISTICS:
+                return self.get_statistic(var0, stat)
 
         # TODO: delete in future releases
         if '.' in var:
@@ -2709,8 +2712,8 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
+            if '_' in var and var.rsplit('_', 1)[1] in STATISTICS:
+                var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
                 warnings.warn('The use of "%s" is deprecated, use '
-- 
2.43.0


From 0675599611e3a69a4b84de5938ee024d91fbc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 13/97] fix: model configuration could not be saved

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index cfbdcc8..4e41d54 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -152,7 +152,7 @@ def write_configfile(configfile, p=None):
     if p is None:
         p = DEFAULT_CONFIG.copy()
 
-    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.iterkeys()])
+    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.keys()])
         
     with open(configfile, 'w') as fp:
 
@@ -162,7 +162,7 @@ def write_configfile(configfile, p=None):
         fp.write('%s\n' % ('%' * 70))
         fp.write('\n')
         
-        for k, v in sorted(p.iteritems()):
+        for k, v in sorted(p.items()):
             if k.endswith('_file') and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
-- 
2.43.0


From 821e2276b8f69cfd9016680cef35f4f2a6b21096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 14/97] fix: default settings could not be used and would be
 overwritten for all later models

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5f3d12b..9d3498c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2419,13 +2419,13 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG
+            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
                                ny         = 0,
                                xgrid_file = np.arange(0.,100.,1.),
-                               bed_file   = np.linspace(-5.,5.,100.),
+                               bed_file   = np.linspace(-5.,5.,100),
                                wind_file  = np.asarray([[0.,10.,0.],
                                                         [3601.,10.,0.]])))
         else:
-- 
2.43.0


From 10d63672487a59627d07957f97f02f5950ba87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 15/97] fix: saving the model configuration rounded its values

---
 aeolis/inout.py |  2 +-
 aeolis/utils.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 4e41d54..f769663 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -169,7 +169,7 @@ def write_configfile(configfile, p=None):
                 np.savetxt(fname, v)
                 fp.write(fmt % (k, fname))
             else:
-                fp.write(fmt % (k, print_value(v, fill='')))
+                fp.write(fmt % (k, print_value(v, fill='', full=True)))
 
 
 def check_configuration(p):
diff --git a/aeolis/utils.py b/aeolis/utils.py
index d886111..0c7443a 100644
--- a/aeolis/utils.py
+++ b/aeolis/utils.py
@@ -195,7 +195,7 @@ def prevent_tiny_negatives(x: ndarray, max_error: float =1e-10, replacement: flo
     return x
 
                            
-def print_value(val, fill='<novalue>'):
+def print_value(val, fill='<novalue>', full=False):
     '''Construct a string representation from an arbitrary value
 
     Parameters
@@ -204,6 +204,8 @@ def print_value(val, fill='<novalue>'):
         Value to be represented as string
     fill : str, optional
         String representation used in case no value is given
+    full : bool, optional
+        Print floating point numbers without loss of precision
 
     Returns
     -------
@@ -213,7 +215,7 @@ def print_value(val, fill='<novalue>'):
     '''
 
     if isiterable(val):
-        return ' '.join([print_value(x) for x in val])
+        return ' '.join([print_value(x, full=full) for x in val])
     elif val is None:
         return fill
     elif isinstance(val, bool):
@@ -221,7 +223,9 @@ def print_value(val, fill='<novalue>'):
     elif isinstance(val, int):
         return '%d' % val
     elif isinstance(val, float):
-        if val < 1.:
+        if full:
+            return np.format_float_positional(val, trim='0')
+        elif val < 1.:
             return '%0.6f' % val
         else:
             return '%0.2f' % val
-- 
2.43.0


From f867a8edb07dc8d52ea0b2a0c95835f61aace478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 16/97] fix: reference date and empty list of external
 variables did not survive saving the configuration

---
 aeolis/inout.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index f769663..8e86160 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -102,6 +102,14 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         p['grain_dist'] = makeiterable(p['grain_dist'])
         p['grain_size'] = makeiterable(p['grain_size'])
 
+    # make sure that no external variables is an empty list
+    if 'external_vars' in p and p['external_vars'] is None:
+        p['external_vars'] = []
+
+    # join date and time
+    if 'refdate' in p and isiterable(p['refdate']):
+        p['refdate'] = ' '.join(p['refdate'])
+
     # set default output file, if not given
     if 'output_file' in p and not p['output_file']:
         p['output_file'] = '%s.nc' % os.path.splitext(configfile)[0]
-- 
2.43.0


From 0fa4bcc926b84960929920e3e340830166bbabaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 17/97] fix: generated wind speeds were drawn outside their bin
 unless bins are 1 m/s wide

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9d3498c..2e7fba7 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3159,7 +3159,7 @@ class WindGenerator():
         self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
         self.states.append(self.state)
 
-        u = np.maximum(0., self.bins[self.state] - 0.5 + r2 * self.bin_size)
+        u = np.maximum(0., self.bins[self.state] - 0.5 * self.bin_size + r2 * self.bin_size)
         self.wind_speeds.append(u)
 
         self.t += self.dt
-- 
2.43.0


From 1654bd8c65c3d54b4ad8f8e0663fcde4d469d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 18/97] fix: immutable variables were overwritten by in-place
 operations and by the transport solvers

---
 aeolis/model.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2e7fba7..9d784f3 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -117,6 +117,24 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def __getitem__(self, k:str) -> Any:
+        """gets model variables, grids of immutable variables are returned
+        as copy to prevent that they are modified in place
+        """
+
+        v = super(ModelState, self).__getitem__(k)
+        if k not in self.ismutable and isinstance(v, np.ndarray):
+            v = v.copy()
+        return v
+
+
+    def update(self, *args, **kwargs) -> None:
+        """sets multiple new and existing mutable model variables"""
+
+        for k, v in dict(*args, **kwargs).items():
+            self[k] = v
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
-- 
2.43.0


From 661f5f8b5becb66ce8c49398690c7c0ab4200bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 19/97] fix: sediment was lost when more than a bed layer was
 deposited in a single time step

---
 aeolis/bed.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..c0f4736 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -255,11 +255,14 @@ def update(s, p):
     nf = p['nfractions']
 
     # determine net erosion
-    pickup = s['pickup'].reshape((-1,nf))
+    pickup = s['pickup'].reshape((-1,nf)).copy()
 
     # determine total mass that should be exchanged between layers
     dm = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
     
+    # store total mass that determines the bed level change
+    dmtot = dm.copy()
+
     # get erosion and deposition cells
     ix_ero = dm[:,0] < 0.
     ix_dep = dm[:,0] > 0.
@@ -310,7 +313,7 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
+        dz = dmtot[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -436,16 +439,17 @@ def prevent_negative_mass(m, dm, pickup):
             # fill current layer with deposited sediment
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
-            # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            # remove deposited sediment from pickup (negative for deposition)
+            pickup[ix,:] += m[ix,i,:]
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
-        ix = (dm[:,:1] > mx).flatten()
+        ix = (n >= nl).flatten()
         if np.any(ix):
             pickup[ix,:] = 0.
 
         # recompute sediment exchange mass
+        ix = (n > 0).flatten()
         dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
 
     return m, dm, pickup
-- 
2.43.0


From c109252633b37cedff1811b6cf530446707332cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 20/97] fix: failed run left the process in the model directory

---
 aeolis/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9d784f3..e037f24 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2477,6 +2477,18 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        try:
+            self._run(callback=callback, restartfile=restartfile)
+        finally:
+            # restore working directory, also if the run failed
+            if self.cwd is not None:
+                os.chdir(self.cwd)
+                self.cwd = None
+
+
+    def _run(self, callback=None, restartfile:str=None) -> None:
+        '''Start model time loop, see :func:`~model.AeoLiSRunner.run()`'''
+
         # http://www.patorjk.com/software/taag/
         # font: Colossal
 
@@ -2556,9 +2568,6 @@ class AeoLiSRunner(AeoLiS):
 
         self.print_stats()
 
-        if self.cwd is not None:
-            os.chdir(self.cwd)
-
         logging.shutdown()
 
         logging.shutdown()
-- 
2.43.0


From 0da4b09d57caa6c0f57e2b9c67a0df883350474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 21/97] fix: pickup, fluxes and bed level change of the last
 windy step persisted during calm

---
 aeolis/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index e037f24..2c117bd 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -358,6 +358,11 @@ class AeoLiS(IBmi):
             # calculate average bed level change over time
             self.s = aeolis.bed.average_change(self.l, self.s, self.p)
 
+        else:
+            # no wind, no transport and no bed level change
+            for var in ['pickup', 'qs', 'qn', 'dzb']:
+                self.s[var] = np.zeros(self.s[var].shape)
+
         # compute dune erosion
         if self.p['process_dune_erosion']:
             self.s = aeolis.erosion.run_ph12(self.s, self.p, self.t)
-- 
2.43.0


From 4bb88e98a2680d15360a0be1aa78213dbf684618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 22/97] fix: avalanching dug holes where the bed is below the
 non-erodible layer

---
 aeolis/avalanching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 7d7cd3e..36c87dd 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -140,7 +140,7 @@ def avalanche(s, p):
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
                 
                 ix = grad_h_nonerod < grad_h - tan_dyn 
-                slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
+                slope_diff[ix] = np.tanh(np.maximum(grad_h_nonerod[ix], 0.))				                    
 
                 ix = grad_h != 0
                 
-- 
2.43.0


From 5b89fffa48867d46c8579915ae4acb4a9dce16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 23/97] fix: avalanching did nothing unless a non-erodible
 layer is given

---
 aeolis/avalanching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 36c87dd..ef79b7e 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -135,6 +135,7 @@ def avalanche(s, p):
                 # Calculation of flux
 
                 grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
+                grad_h_nonerod[np.isnan(s['zne'])] = np.inf # no non-erodible layer
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
-- 
2.43.0


From 2d3b36ef9bc98dc55af470a338242f72810ebdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 24/97] fix: removal of negative concentrations could yield NaN
 or negative concentrations

---
 aeolis/model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2c117bd..d3f6fca 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1013,7 +1013,8 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() > 0.:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -1404,7 +1405,7 @@ class AeoLiS(IBmi):
                                               **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
 
@@ -1785,7 +1786,8 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() > 0.:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2202,7 +2204,8 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() > 0.:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 277cf689bc8a75d1b28d931c239a592e1f92511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 25/97] fix: statistics of the sediment flux lagged one time
 step behind

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index d3f6fca..e82c8de 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2801,6 +2801,9 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        # update the q variable before it is included in the statistics
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         for k, exts in self.p['_output_vars'].items():
             v = self.get_var(k, clear=False).copy()
             if 'min' in exts:
@@ -2812,9 +2815,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From a01b598b73b738723d5a034aff2d1b4678fd0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 26/97] fix: angles of repose were not grids and could not be
 written to output

---
 aeolis/avalanching.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index ef79b7e..11d0dd2 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -63,8 +63,8 @@ def angele_of_repose(s,p):
     theta_stat = p['theta_stat']
     theta_dyn  = p['theta_dyn']
     
-    s['theta_stat'] = theta_stat
-    s['theta_dyn'] = theta_dyn
+    s['theta_stat'] = np.full(s['zb'].shape, theta_stat)
+    s['theta_dyn'] = np.full(s['zb'].shape, theta_dyn)
         
     return s
 
@@ -98,8 +98,8 @@ def avalanche(s, p):
 
         #parameters
 
-        tan_stat = np.tan(np.deg2rad(s['theta_stat']))
-        tan_dyn = np.tan(np.deg2rad(s['theta_dyn']))
+        tan_stat = np.tan(np.deg2rad(s['theta_stat'])) + np.zeros((ny,nx))
+        tan_dyn = np.tan(np.deg2rad(s['theta_dyn'])) + np.zeros((ny,nx))
         
 
 
@@ -116,7 +116,7 @@ def avalanche(s, p):
         
         s['gradh'] = grad_h.copy()
 
-        initiate_avalanche = (max_grad_h > tan_stat) 
+        initiate_avalanche = np.any(grad_h > tan_stat)
 
         if initiate_avalanche:
 
@@ -129,7 +129,7 @@ def avalanche(s, p):
 
                 max_grad_h, grad_h, grad_h_down = calc_gradients(s['zb'], nx, ny, s['ds'], s['dn'], s[ 'zne'])
 
-                if max_grad_h < tan_dyn:
+                if np.all(grad_h < tan_dyn):
                     break
 
                 # Calculation of flux
@@ -138,7 +138,7 @@ def avalanche(s, p):
                 grad_h_nonerod[np.isnan(s['zne'])] = np.inf # no non-erodible layer
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
-                slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
+                slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn[ix])
                 
                 ix = grad_h_nonerod < grad_h - tan_dyn 
                 slope_diff[ix] = np.tanh(np.maximum(grad_h_nonerod[ix], 0.))				                    
-- 
2.43.0


From 4debad33b879cf7326628eb41c2e96a6fb58d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 27/97] fix: groundwater computation crashed once the domain is
 entirely flooded

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..7e36c66 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -457,7 +457,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
 
 
     for i in range(len(a[:,0])):
-        if shl_ix[i] < len(a[0,:]) - 3:   
+        if 0 < shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
             b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
             c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
-- 
2.43.0


From 25d7173ecf3afe6744f5a40a1cfb6d155ae18851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 28/97] fix: callback scripts shared a namespace, missing
 callback functions were silently ignored

---
 aeolis/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e82c8de..b128bfa 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -28,6 +28,7 @@ The Netherlands                  The Netherlands
 from __future__ import absolute_import, division
 
 import os
+import sys
 import importlib.machinery
 import importlib.metadata
 import time
@@ -2551,7 +2552,7 @@ class AeoLiSRunner(AeoLiS):
         else:
             callback = self.parse_callback(self.p['callback'])
         if callback is not None:
-            logger.info('Applying callback function: %s()\n', callback.__name__)
+            logger.info('Applying callback function: %s()\n', getattr(callback, '__name__', callback))
 
         # initialize model
         self.initialize()
@@ -2950,12 +2951,12 @@ class AeoLiSRunner(AeoLiS):
             if ':' in callback:
                 fname, func = callback.split(':')
                 if os.path.exists(fname):
+                    sys.modules.pop('callback', None) # do not share a namespace with earlier callbacks
                     mod = importlib.machinery.SourceFileLoader('callback', fname).load_module()
                     if hasattr(mod, func):
                         return getattr(mod, func)
-                else:
-                    logger.error('Invalid callback definition [%s]', callback)
-                    raise IOError('Check definition in input file [%s]' % callback)
+                logger.error('Invalid callback definition [%s]', callback)
+                raise IOError('Check definition in input file [%s]' % callback)
                 #     logger.error(f"Callback function not found: {fname}. Check the reference to the callback in the input file")
         elif hasattr(callback, '__call__'):
             return callback
-- 
2.43.0


From ec6414e4dcb4130d6fb95dc3135be964cf25eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 29/97] fix: rank and shape of model state variables that are
 no grid could not be requested

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index b128bfa..c9236c5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -507,7 +507,7 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            return len(self.s[var].shape)
+            return np.ndim(self.s[var])
         else:
             return -1
 
@@ -526,7 +526,7 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            return self.s[var].shape
+            return np.shape(self.s[var])
         else:
             return -1
 
-- 
2.43.0


From 7790172a6e5018e7025095145cdabba399a1b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 30/97] fix: avalanching dug into the non-erodible layer

---
 aeolis/avalanching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 11d0dd2..b5c1008 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -143,6 +143,9 @@ def avalanche(s, p):
                 ix = grad_h_nonerod < grad_h - tan_dyn 
                 slope_diff[ix] = np.tanh(np.maximum(grad_h_nonerod[ix], 0.))				                    
 
+                # never slide more than what is on top of the non-erodible layer
+                slope_diff = np.minimum(slope_diff, np.maximum(grad_h_nonerod, 0.))
+
                 ix = grad_h != 0
                 
                 if ny == 1:
-- 
2.43.0


From 242a93a1b9487ec84fec9d25c16427afbd3b278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 31/97] fix: transport to the next alongshore cell used the
 coefficients of that cell

---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c9236c5..8bf7b9b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -942,14 +942,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1314,14 +1314,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1648,12 +1648,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2058,12 +2058,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From 8a43383801340cf0802181840342541535a4e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 32/97] fix: constant lateral boundary produced unlimited
 concentrations, also in 1D where there is none

---
 aeolis/model.py | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 8bf7b9b..13694e3 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -916,7 +916,9 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
 
-            if p['boundary_lateral'] == 'constant':
+            if p['boundary_lateral'] == 'constant' and p['ny'] == 0:
+                pass # no lateral boundaries in 1D
+            elif p['boundary_lateral'] == 'constant':
                 A0[0,:] = 1.
                 Apx[0,:] = 0.
                 Ap1[0,:] = 0.
@@ -928,6 +930,9 @@ class AeoLiS(IBmi):
                 Ap1[-1,:] = 0.
                 Amx[-1,:] = 0.
                 Am1[-1,:] = 0.
+
+                Ap2[[0,-1],:] = 0.
+                Am2[[0,-1],:] = 0.
             
                 #logger.log_and_raise('Lateral constant boundary condition not yet implemented', exc=NotImplementedError)
             elif p['boundary_lateral'] == 'uniform':
@@ -998,6 +1003,10 @@ class AeoLiS(IBmi):
                 if p['boundary_onshore'] == 'constant':
                     y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
 
+                # constant concentration along the lateral boundaries
+                if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
+                    y_i[[0,-1],1:-1] = l['Ct'][[0,-1],1:-1,i]
+
                 # solve system with current weights
                 Ct_i = scipy.sparse.linalg.spsolve(A, y_i.flatten())
                 Ct_i = prevent_tiny_negatives(Ct_i, p['max_error'])
@@ -1288,7 +1297,9 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
 
-            if p['boundary_lateral'] == 'constant':
+            if p['boundary_lateral'] == 'constant' and p['ny'] == 0:
+                pass # no lateral boundaries in 1D
+            elif p['boundary_lateral'] == 'constant':
                 A0[0,:] = 1.
                 Apx[0,:] = 0.
                 Ap1[0,:] = 0.
@@ -1300,6 +1311,9 @@ class AeoLiS(IBmi):
                 Ap1[-1,:] = 0.
                 Amx[-1,:] = 0.
                 Am1[-1,:] = 0.
+
+                Ap2[[0,-1],:] = 0.
+                Am2[[0,-1],:] = 0.
             
                 #logger.log_and_raise('Lateral constant boundary condition not yet implemented', exc=NotImplementedError)
             elif p['boundary_lateral'] == 'uniform':
@@ -1389,6 +1403,10 @@ class AeoLiS(IBmi):
                 if p['boundary_onshore'] == 'constant':
                     y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
 
+                # constant concentration along the lateral boundaries
+                if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
+                    y_i[[0,-1],1:-1] = l['Ct'][[0,-1],1:-1,i]
+
                 # solve system with current weights
                 Ct_i = scipy.sparse.linalg.spsolve(A, y_i.flatten())
                 Ct_i = prevent_tiny_negatives(Ct_i, p['max_error'])
@@ -1616,7 +1634,10 @@ class AeoLiS(IBmi):
         
             #lateral boundaries (j=0; j=ny)    
 
-            if p['boundary_lateral'] == 'flux':
+            if p['ny'] == 0 and p['boundary_lateral'] in ['flux', 'constant', 'gradient', 'circular']:
+                #no lateral boundaries in 1D
+                pass
+            elif p['boundary_lateral'] == 'flux':
                 #nothing to be done
                 pass
             elif p['boundary_lateral'] == 'constant':
@@ -1749,7 +1770,10 @@ class AeoLiS(IBmi):
                     
                 #lateral boundaries (j=0; j=ny)    
 
-                if p['boundary_lateral'] == 'flux':
+                if p['ny'] == 0 and p['boundary_lateral'] in ['flux', 'constant', 'gradient', 'circular']:
+                    #no lateral boundaries in 1D
+                    pass
+                elif p['boundary_lateral'] == 'flux':
                     
                     yCt_i[0,:]   += s['ds'][0,:] * ufn[0,:]  * s['Cu0'][0,:,i] * p['lateral_flux'] #lower y-face
                     yCt_i[-1,:]  -= s['ds'][-1,:] * ufn[-1,:] * s['Cu0'][-1,:,i] * p['lateral_flux'] #upper y-face                    
@@ -2026,7 +2050,10 @@ class AeoLiS(IBmi):
         
             #lateral boundaries (j=0; j=ny)    
 
-            if p['boundary_lateral'] == 'flux':
+            if p['ny'] == 0 and p['boundary_lateral'] in ['flux', 'constant', 'gradient', 'circular']:
+                #no lateral boundaries in 1D
+                pass
+            elif p['boundary_lateral'] == 'flux':
                 #nothing to be done
                 pass
             elif p['boundary_lateral'] == 'constant':
@@ -2166,7 +2193,10 @@ class AeoLiS(IBmi):
                     
                 #lateral boundaries (j=0; j=ny)    
 
-                if p['boundary_lateral'] == 'flux':
+                if p['ny'] == 0 and p['boundary_lateral'] in ['flux', 'constant', 'gradient', 'circular']:
+                    #no lateral boundaries in 1D
+                    pass
+                elif p['boundary_lateral'] == 'flux':
                     
                     yCt_i[0,:]  += s['ds'][0,:] * ufn[0,:]  * s['Cu0'][0,:,i] * p['lateral_flux'] #lower y-face
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * s['Cu0'][-1,:,i] * p['lateral_flux'] #upper y-face
-- 
2.43.0


From f78da9d4f2d984792e521a5503dddae5e9c6f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 33/97] fix: sediment vanished in 1D models with obliquely
 incident wind

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 13694e3..e965122 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -960,7 +960,7 @@ class AeoLiS(IBmi):
             else:
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Apx + Amx).flatten(), # uniform alongshore
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1341,7 +1341,7 @@ class AeoLiS(IBmi):
             else:
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Apx + Amx).flatten(), # uniform alongshore
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
-- 
2.43.0


From 2791d246a9e6f4b0ecd082bff8dde75e38754ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 34/97] fix: sediment passing a circular lateral boundary was
 not conserved

---
 aeolis/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index e965122..e32678d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -823,6 +823,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1204,6 +1208,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1712,6 +1720,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From 65a4867bec6b51d571d4b233ba6686a5b2119fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 35/97] fix: sediment was picked up from exposed non-erodible
 layers and ignored thresholds read from file

---
 aeolis/threshold.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index db8f688..3796f75 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -99,12 +99,14 @@ def compute(s, p):
                     
         # apply complex mask
         s['uth'] = apply_mask(s['uth'], s['threshold_mask'])
-        s['uthf'] = s['uth'].copy()
         
     #non-erodible layer (NEW)
     if p['th_nelayer']:
         s = non_erodible(s,p)
 
+    # fluid threshold
+    s['uthf'] = s['uth'].copy()
+
     return s
 
 
-- 
2.43.0


From cb32b9d2763f5d4c864d512b3cedd8927504742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 36/97] fix: threshold velocities read from file crashed 1D
 models

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index c0f4736..c39de73 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -113,7 +113,7 @@ def initialize(s, p):
 
     # initialize threshold
     if p['threshold_file'] is not None:
-        s['uth'] = p['threshold_file'][:,:,np.newaxis].repeat(nf, axis=-1)
+        s['uth'] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis].repeat(nf, axis=-1)
         
     return s
 
-- 
2.43.0


From b2978a70a23a61534c13c30d8988b1aa944ef851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 37/97] fix: thresholds read from file yielded NaN transport
 with the Duran grain speed

---
 aeolis/bed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index c39de73..2fbf079 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -114,6 +114,7 @@ def initialize(s, p):
     # initialize threshold
     if p['threshold_file'] is not None:
         s['uth'] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis].repeat(nf, axis=-1)
+        s['uth0'] = s['uth'].copy()
         
     return s
 
-- 
2.43.0


From 9c9737ac7b80c92e8b60d99945f684522c46dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 38/97] fix: grain size dependent Bagnold transport crashed 2D
 models

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..6992a80 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -324,7 +324,7 @@ def equilibrium(s, p):
             
         elif p['method_transport'].lower() == 'bagnold_gs':
             Dref = 0.000250
-            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1)
+            d = np.broadcast_to(p['grain_size'], uth.shape)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-- 
2.43.0


From b681b10c846502392c3bb92bfd3d4d78532d8d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 39/97] fix: groundwater of a transect was set to the sea level
 at the shoreline of its neighbour

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 7e36c66..4a12f78 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -423,7 +423,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From cd11b53144852b89771dbaf576b15c20bc354c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 40/97] fix: shear of topography, fences and vegetation ignored
 the orientation of the grid (alfa)

---
 aeolis/fences.py     | 4 ++--
 aeolis/vegetation.py | 2 +-
 aeolis/wind.py       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 38611d3..2ef1b78 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -96,7 +96,7 @@ def fence_shear2d(s, p):
     dy = dx
 
 
-    udir = s['udir'][0, 0]
+    udir = s['udir'][0, 0] - p['alfa']
     if udir < 0:
         udir = udir + 360
     udir = udir - np.floor(udir / 360) * 360
@@ -466,7 +466,7 @@ def fence_shear1d(s, p):
     ix = ustar != 0
     ets[ix] = ustars[ix] / ustar[ix]
     etn[ix] = ustarn[ix] / ustar[ix]
-    udir = s['udir'][0,0]+180
+    udir = s['udir'][0,0] - p['alfa'] + 180
 
     x = s['x'][0,:]
     zp = s['fence_height'][0,:]
diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..7bdedbd 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -195,7 +195,7 @@ def vegshear_okin(s, p):
     ix = ustar != 0
     ets[ix] = ustars[ix] / ustar[ix]
     etn[ix] = ustarn[ix] / ustar[ix]
-    udir = s['udir'][0,0] + 180
+    udir = s['udir'][0,0] - p['alfa'] + 180
 
     x = s['x'][0,:]
     zp = s['hveg'][0,:]
diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..652c64b 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -215,7 +215,7 @@ def shear(s,p):
         
         s['shear'](x=s['x'], y=s['y'], z=s['zb'],
                    taux=s['taus'], tauy=s['taun'],
-                   u0=s['uw'][0,0], udir=s['udir'][0,0],
+                   u0=s['uw'][0,0], udir=s['udir'][0,0] - p['alfa'],
                    process_separation = p['process_separation'],
                    c = p['c_b'],
                    mu_b = p['mu_b'],
@@ -367,7 +367,7 @@ def separation1d(s, p):
     c = p['c_b']
     mu_b = p['mu_b']
     nx = np.size(z)
-    udir = s['udir'][0][0]
+    udir = s['udir'][0][0] - p['alfa']
 
     #make the grids 2d to utilize same code as in the shear module
     ny = 3
-- 
2.43.0


From f3f8532396ef0feddee306ae09323d781470d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 41/97] fix: first step was recognized by a zero time although
 simulations may start at any time

---
 aeolis/hydro.py |  2 +-
 aeolis/model.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 4a12f78..9e9f961 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -353,7 +353,7 @@ def update(s, p, dt,t):
             
             if p['process_scanning']:
             #Initialize value of surface moisture due to capillary rise
-                if t == 0:
+                if t == p['tstart']:
                     s['moist_swr'] = p['resw_moist'] + (p['satw_moist'] - p['resw_moist']) \
                           / (1 + abs(p['alfaw_moist'] * h) ** p['nw_moist']) ** p['mw_moist']
                     s['h_delta'][:,:]=np.maximum(0,(s['zb'] - s['gw'])*100)
diff --git a/aeolis/model.py b/aeolis/model.py
index e32678d..b5196aa 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -767,7 +767,7 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
-        if self.t == 0.:
+        if self.t == self.p['tstart']:
             # use initial guess for first time step
             if p['grain_dist'] is not None:
                 w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
@@ -1153,7 +1153,7 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
-        if self.t == 0.:
+        if self.t == self.p['tstart']:
             if type(p['bedcomp_file']) == np.ndarray:
                 w = w_init.copy()
             else:
@@ -1530,7 +1530,7 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
-        if self.t == 0.:
+        if self.t == self.p['tstart']:
             # use initial guess for first time step
             w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
@@ -1948,7 +1948,7 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
-        if self.t == 0.:
+        if self.t == self.p['tstart']:
             # use initial guess for first time step
             w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
@@ -2868,7 +2868,7 @@ class AeoLiSRunner(AeoLiS):
         dictionary.
         '''
 
-        if self.t - self.tout >= self.p['output_times'] or self.t == 0.:
+        if self.t - self.tout >= self.p['output_times'] or self.t == self.p['tstart']:
 
             variables = {}
             variables['time'] = self.t
-- 
2.43.0


From 493370c1145ff97e17ec2cefb04c287913c5ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 42/97] fix: cell sizes along and across a 2D grid were
 interchanged

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From 384676cd4b73145ccc90e510a9901452f47279ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 43/97] fix: grids pointing to negative x and positive y were
 turned around

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 185245a..91a9b55 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -188,7 +188,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     else:
         p['alpha'] = np.rad2deg(np.arctan(dy/dx))
 
-    if dx <= 0 and dy <= 0:
+    if dx < 0 or (dx == 0 and dy <= 0):
         p['alpha'] += 180.
         
     # Rotate grids to allign with horizontal
-- 
2.43.0


From 257444c1576d6114354348fe0b4dcb68b07b87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 44/97] fix: initial fence heights shared their memory with
 other variables

---
 aeolis/fences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 2ef1b78..9026d50 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -51,8 +51,8 @@ def initialize(s,p):
         s['fence_height'][:,:] = p['fence_file']
         s['fence_base'] = copy(s['zb'])  # initial fence base is the bed elevation
         s['fence_top'] = s['fence_base'] + s['fence_height']
-        s['fence_height_init'] = s['fence_height']
-        s['zf'] = s['fence_height']
+        s['fence_height_init'] = s['fence_height'].copy()
+        s['zf'] = s['fence_height'].copy()
     return s
 
 def update_fences(s,p):
-- 
2.43.0


From 2dba8511f3f16a8a07ae6e412f82721ddf3ea33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 45/97] fix: cells without plants grew at the rate of the
 plants that died there

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 7bdedbd..aeade9c 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -136,6 +136,7 @@ def grow (s, p): #DURAN 2006
     ix = np.logical_or(s['germinate'] != 0., s['lateral'] != 0.) * ( p['V_ver'] > 0.)
                                                     
     # Reduction of vegetation growth due to sediment burial
+    s['dhveg'][~ix] = 0.
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
 
     # Adding growth
-- 
2.43.0


From 8a0951068fc612f5fe160bec1b86d6020fe52cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 46/97] fix: vegetation without vertical growth spread at the
 number of its neighbors per year

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index aeade9c..7008c59 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -154,7 +154,7 @@ def grow (s, p): #DURAN 2006
         if p['V_ver'] > 0:
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
-            s['drhoveg'][ix] = 0
+            s['drhoveg'][:,:] = 0
         s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
-- 
2.43.0


From 6a8cac5649efeae8bf30f8624d0bc4f8cf144b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 47/97] fix: vegetation cover grew over the configured instead
 of the actual time step

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 7008c59..aeebcd5 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -155,7 +155,7 @@ def grow (s, p): #DURAN 2006
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
             s['drhoveg'][:,:] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From ea3551f74b88534c799942e713646c5801e0003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 48/97] fix: plants were buried in calm weather by the last bed
 level change before it

---
 aeolis/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index b5196aa..289d4d2 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -361,9 +361,12 @@ class AeoLiS(IBmi):
 
         else:
             # no wind, no transport and no bed level change
-            for var in ['pickup', 'qs', 'qn', 'dzb']:
+            for var in ['pickup', 'qs', 'qn']:
                 self.s[var] = np.zeros(self.s[var].shape)
 
+            # calculate average bed level change over time
+            self.s = aeolis.bed.average_change(self.l, self.s, self.p)
+
         # compute dune erosion
         if self.p['process_dune_erosion']:
             self.s = aeolis.erosion.run_ph12(self.s, self.p, self.t)
-- 
2.43.0


From d518c7e109c659c9a4cec790def55593078acb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 49/97] fix: growth rate of vegetation cover was truncated to
 whole numbers per year

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index aeebcd5..a74ce21 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -121,7 +121,7 @@ def germinate(s,p):
     
     lat_veg = drhoveg > 0.
     
-    s['drhoveg'] = np.sum(lat_veg[:,:,:], 2)
+    s['drhoveg'] = np.sum(lat_veg[:,:,:], 2).astype(float)
     
     p_lateral = p_lateral_cell * s['drhoveg']
     
-- 
2.43.0


From 0ff0dccf0a19f8c199e9aca41837d448afa28f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 50/97] fix: sediment vanished where its availability limited
 the solution of the face based solvers

---
 aeolis/model.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 289d4d2..51b966e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1727,7 +1727,7 @@ class AeoLiS(IBmi):
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-                A_i = s['dsdn'] / Ts * s['mass'][:,:,0,i] + D_i # Availability
+                A_i = s['dsdn'] / self.dt * s['mass'][:,:,0,i] + D_i # Availability
                 U_i = s['dsdn'] / Ts *  w[:,:,i] *  s['Cu'][:,:,i] 
                                             
                 #deficit_i = E_i - A_i
@@ -1838,6 +1838,12 @@ class AeoLiS(IBmi):
                 ix = (deficit_i > p['max_error']) \
                      & (w_i * Cu_i > 0.)
 
+                # the availability follows from the concentration in
+                # the previous iteration step, the solution is not
+                # final where it is limited by that and still changes
+                dCt_i = np.abs(Ct_i.reshape(yCt_i.shape) - Ct[:,:,i])
+                limited = (U_i > A_i) & (dCt_i / Ts_i * self.dt > p['max_error'])
+
                 pickup[:,:,i] = pickup_i.reshape(yCt_i.shape)
                 Ct[:,:,i] = Ct_i.reshape(yCt_i.shape)
                      
@@ -1845,7 +1851,7 @@ class AeoLiS(IBmi):
                 # back-compute the maximum weight allowed to get zero
                 # deficit for the current fraction and progress to
                 # the next iteration step
-                if not np.any(ix):
+                if not np.any(ix) and not np.any(limited):
                     logger.debug(format_log('Iteration converged',
                                             steps=n,
                                             fraction=i,
@@ -2148,7 +2154,7 @@ class AeoLiS(IBmi):
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * ( alpha * Ct[:,:,i]  \
                                             + (1. - alpha ) * l['Ct'][:,:,i] )
-                A_i = s['dsdn'] / Ts * s['mass'][:,:,0,i] + D_i # Availability
+                A_i = s['dsdn'] / self.dt * s['mass'][:,:,0,i] + D_i # Availability
                 U_i = s['dsdn'] / Ts * ( w[:,:,i] * alpha * s['Cu'][:,:,i] \
                                             + (1. - alpha ) * l['w'][:,:,i] * l['Cu'][:,:,i] )
                 #deficit_i = E_i - A_i
@@ -2262,6 +2268,12 @@ class AeoLiS(IBmi):
                 ix = (deficit_i > p['max_error']) \
                      & (w_i * Cu_i > 0.)
 
+                # the availability follows from the concentration in
+                # the previous iteration step, the solution is not
+                # final where it is limited by that and still changes
+                dCt_i = np.abs(Ct_i.reshape(yCt_i.shape) - Ct[:,:,i])
+                limited = (U_i > A_i) & (dCt_i / Ts_i * self.dt > p['max_error'])
+
                 pickup[:,:,i] = pickup_i.reshape(yCt_i.shape)
                 Ct[:,:,i] = Ct_i.reshape(yCt_i.shape)
                      
@@ -2269,7 +2281,7 @@ class AeoLiS(IBmi):
                 # back-compute the maximum weight allowed to get zero
                 # deficit for the current fraction and progress to
                 # the next iteration step
-                if not np.any(ix):
+                if not np.any(ix) and not np.any(limited):
                     logger.debug(format_log('Iteration converged',
                                             steps=n,
                                             fraction=i,
-- 
2.43.0


From 0c320b770b7139dc309feef198ff45e523c9c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 51/97] fix: masks and layered grain size distributions lost
 their shape when written to a configuration file

---
 aeolis/inout.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 8e86160..b09bd7c 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -133,10 +133,11 @@ def write_configfile(configfile, p=None):
 
     Writes model configuration to file. If no model configuration is
     given, the default configuration is written to file. Any
-    parameters with a name ending with `_file` and holding a matrix
-    are treated as separate files. The matrix is then written to an
-    ASCII file using the ``numpy.savetxt`` function and the parameter
-    value is replaced by the name of the ASCII file.
+    parameters with a name ending with `_file` or `_mask` and holding
+    an array, and any other parameters holding a matrix, are treated
+    as separate files. The matrix is then written to an ASCII file
+    using the ``numpy.savetxt`` function and the parameter value is
+    replaced by the name of the ASCII file.
 
     Parameters
     ----------
@@ -171,7 +172,7 @@ def write_configfile(configfile, p=None):
         fp.write('\n')
         
         for k, v in sorted(p.items()):
-            if k.endswith('_file') and isiterable(v):
+            if isiterable(v) and (k.endswith(('_file', '_mask')) or np.ndim(v) > 1):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
                 np.savetxt(fname, v)
-- 
2.43.0


From 185b5b934c0622b4d75a038669218096b64507fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 52/97] fix: settings could not be written to a new
 configuration file with a relative path

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 51b966e..3a487ab 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2640,7 +2640,7 @@ class AeoLiSRunner(AeoLiS):
         '''Set model configuration file name'''
 
         self.changed = False
-        if os.path.exists(configfile):
+        if os.path.exists(configfile) or configfile.upper() != 'DEFAULT':
             self.configfile = os.path.abspath(configfile)
         else:
             self.configfile = configfile
-- 
2.43.0


From 4cbff2cae2608c1dcd312e6317919d2c16f69945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 53/97] fix: wind generator never finished where rounding
 produced an additional wind speed bin

---
 aeolis/model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 3a487ab..5199ec1 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3162,9 +3162,7 @@ class WindGenerator():
         weib_scale=scale*float(mean_speed)/np.sqrt(np.pi);
 
         # wind speed bins
-        self.bins = np.arange(self.bin_size/2.0,
-                              float(max_speed) + self.bin_size/2.0,
-                              self.bin_size)
+        self.bins = self.bin_size/2.0 + self.bin_size * np.arange(n_states)
 
         # distribution of probabilities, normalised
         fdpWind = self.weibullpdf(self.bins, weib_scale, weib_shape)
-- 
2.43.0


From 755d00d136299bdc07ccc1db210405f6e4be5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 54/97] fix: wind generator failed on random numbers beyond the
 rounded cumulative probabilities

---
 aeolis/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5199ec1..dc975ff 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3244,7 +3244,8 @@ class WindGenerator():
         self.randoms1.append(r1)
         self.randoms2.append(r2)
 
-        self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
+        # rounding may leave the last cumulative probability below unity
+        self.state = next((j for j,v in enumerate(self.MTMcum[self.state]) if v > r1), self.n_states - 1)
         self.states.append(self.state)
 
         u = np.maximum(0., self.bins[self.state] - 0.5 * self.bin_size + r2 * self.bin_size)
-- 
2.43.0


From 162b34a9fa8089c4fbd5ca62bcebe4067ccdca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 55/97] fix: callback definitions without a function name were
 silently ignored

---
 aeolis/model.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index dc975ff..2eb6307 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3002,16 +3002,15 @@ class AeoLiSRunner(AeoLiS):
         '''
 
         if isinstance(callback, str):
-            if ':' in callback:
-                fname, func = callback.split(':')
-                if os.path.exists(fname):
-                    sys.modules.pop('callback', None) # do not share a namespace with earlier callbacks
-                    mod = importlib.machinery.SourceFileLoader('callback', fname).load_module()
-                    if hasattr(mod, func):
-                        return getattr(mod, func)
-                logger.error('Invalid callback definition [%s]', callback)
-                raise IOError('Check definition in input file [%s]' % callback)
-                #     logger.error(f"Callback function not found: {fname}. Check the reference to the callback in the input file")
+            fname, _, func = callback.partition(':')
+            if func and os.path.exists(fname):
+                sys.modules.pop('callback', None) # do not share a namespace with earlier callbacks
+                mod = importlib.machinery.SourceFileLoader('callback', fname).load_module()
+                if hasattr(mod, func):
+                    return getattr(mod, func)
+            logger.error('Invalid callback definition [%s]', callback)
+            raise IOError('Check definition in input file [%s]' % callback)
+            #     logger.error(f"Callback function not found: {fname}. Check the reference to the callback in the input file")
         elif hasattr(callback, '__call__'):
             return callback
         elif callback is None:
-- 
2.43.0


From 580f655ec427177cd44509e1ca1ed57a36815606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 56/97] fix: dune erosion failed because one of its parameters
 had no default value

---
 aeolis/constants.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index d74ae45..c9abdbc 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -321,6 +321,7 @@ DEFAULT_CONFIG = {
     'alfa'                          : 0,                  # [deg] Real-world grid cell orientation wrt the North (clockwise)
     'dune_toe_elevation'            : 3,                  # Choose dune toe elevation, only used in the PH12 dune erosion solver
     'beach_slope'                   : 0.1,                # Define the beach slope, only used in the PH12 dune erosion solver
+    'Cs'                            : 0.00134,            # [-] Wave impact coefficient (Larson et al., 2004), only used in the PH12 dune erosion solver
     'veg_min_elevation'             : 3,                  # Choose the minimum elevation where vegetation can grow
     'vegshear_type'                 : 'raupach',          # Choose the Raupach grid based solver (1D or 2D) or the Okin approach (1D only)
     'okin_c1_veg'                   : 0.48,               #x/h spatial reduction factor in Okin model for use with vegetation
-- 
2.43.0


From 7be654ea37ad00e633c2074073ebd76c7123b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 57/97] fix: dune erosion failed when the dune toe was flooded
 without waves

---
 aeolis/erosion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..8527fcd 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -111,8 +111,11 @@ def run_ph12(s, p, t):
             Vc = Vc - Vc[0]
 
             # collision calcs
-            p_collision = 1 - norm.cdf(zToe, eta + wl, sigma_s)
-            Nc = p_collision * dt / Tp
+            if sigma_s > 0 and Tp > 0:
+                p_collision = 1 - norm.cdf(zToe, eta + wl, sigma_s)
+                Nc = p_collision * dt / Tp
+            else:
+                Nc = 0. # no waves, no collisions
 
             # volume change calcs
             dV = 4 * Cs * (np.max(twl - zToe, 0)) ** 2 * Nc
-- 
2.43.0


From db33a8f35eabf8dd568dae7d21b143186b1c7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 58/97] fix: dune erosion dug into the non-erodible layer

---
 aeolis/erosion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index 8527fcd..133d9b4 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -106,6 +106,10 @@ def run_ph12(s, p, t):
             ix = zbT > zb
             zbT[ix] = zb[ix]
 
+            # the non-erodible layer is not eroded
+            ix = zbT < s['zne'][iy, :]
+            zbT[ix] = np.minimum(zb[ix], s['zne'][iy, ix])
+
             # initial volume calcs
             Vc = np.cumsum(dx * (zb[st0:] - zbT[st0:]))
             Vc = Vc - Vc[0]
-- 
2.43.0


From ae8ab524e3f862c639e6b29e3a1e329b973f1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 59/97] fix: numbers in exponent notation in the configuration
 file were read as words

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index b09bd7c..6dcda28 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -286,9 +286,9 @@ def parse_value(val, parse_files=True, force_list=False):
         return np.asarray([parse_value(x) for x in val.split(' ')])
     elif re.match('^[TF]$', val):
         return val == 'T'
-    elif re.match('^-?\d+$', val):
+    elif re.match(r'^[+-]?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val):
+    elif re.match(r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From 627b8ca3c89f1c651bde31f4ba0301c12bb8d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 60/97] fix: lists separated by more than one blank in the
 configuration file had empty items

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 6dcda28..c39cc3d 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -282,8 +282,8 @@ def parse_value(val, parse_files=True, force_list=False):
         
     val = val.strip()
     
-    if ' ' in val or force_list:
-        return np.asarray([parse_value(x) for x in val.split(' ')])
+    if len(val.split()) > 1 or force_list:
+        return np.asarray([parse_value(x) for x in val.split() or ['']])
     elif re.match('^[TF]$', val):
         return val == 'T'
     elif re.match(r'^[+-]?\d+$', val):
-- 
2.43.0


From b98ec0b359c1f9ecb82701c80b4768c2af6d2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 61/97] fix: onshore boundary condition was selected by the
 name of the offshore one

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2eb6307..9675cef 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -918,7 +918,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
@@ -1291,7 +1291,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):                              
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
@@ -1303,7 +1303,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
-- 
2.43.0


From 754f0aeb6d3336396ec3fed0332bc7cc703672d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 62/97] fix: flux through the onshore boundary had the wrong
 sign in the face based solvers

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9675cef..11bcbc3 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1765,7 +1765,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
@@ -2194,7 +2194,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air (for now = 0)
-- 
2.43.0


From 69d83f73731d88ab79e872deb135df0197720f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 63/97] fix: constant boundary flux was added in each iteration
 of the steady state face based solver

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 11bcbc3..709428c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1751,7 +1751,7 @@ class AeoLiS(IBmi):
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
                 elif p['boundary_offshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,0]  = p['constant_offshore_flux']
+                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1769,7 +1769,7 @@ class AeoLiS(IBmi):
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,-1]  = p['constant_onshore_flux']
+                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
-- 
2.43.0


From e0c0fe1ce7a169e174c8cf16a92029c92ed6c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 64/97] fix: lateral conditions changed the prescribed
 concentrations in the corners in the face based solvers

---
 aeolis/model.py | 50 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 709428c..c4bfcec 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1676,7 +1676,16 @@ class AeoLiS(IBmi):
                 Apx[-1,:] += s['ds'][-1,:] * ufn[-1,:] * (1. - ixfn[-1,:])      #upper y-face
             else:
                 raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
-         
+
+            # a constant sediment concentration includes the corners
+            for boundary, ix in [('boundary_offshore', 0), ('boundary_onshore', -1)]:
+                if p[boundary] == 'constant':
+                    A0[:,ix] = 1.
+                    Apx[:,ix] = 0.
+                    Amx[:,ix] = 0.
+                    Ap1[:,ix] = 0.
+                    Am1[:,ix] = 0.
+
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
@@ -1750,8 +1759,8 @@ class AeoLiS(IBmi):
                 if p['boundary_offshore'] == 'flux':
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
                 elif p['boundary_offshore'] == 'constant':
-                    #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                    #constant sediment concentration (Ct) in the air, see below
+                    pass
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1768,8 +1777,8 @@ class AeoLiS(IBmi):
                     yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
 
                 elif p['boundary_onshore'] == 'constant':
-                    #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
+                    #constant sediment concentration (Ct) in the air, see below
+                    pass
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1802,6 +1811,12 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
                 else:
                     raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
+
+                # a constant sediment concentration includes the corners
+                if p['boundary_offshore'] == 'constant':
+                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                if p['boundary_onshore'] == 'constant':
+                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
                 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
@@ -2099,7 +2114,16 @@ class AeoLiS(IBmi):
                 Apx[-1,:] += s['ds'][-1,:] * ufn[-1,:] * (1. - ixfn[-1,:]) * alpha #upper y-face
             else:
                 raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
-         
+
+            # a constant sediment concentration includes the corners
+            for boundary, ix in [('boundary_offshore', 0), ('boundary_onshore', -1)]:
+                if p[boundary] == 'constant':
+                    A0[:,ix] = 1.
+                    Apx[:,ix] = 0.
+                    Amx[:,ix] = 0.
+                    Ap1[:,ix] = 0.
+                    Am1[:,ix] = 0.
+
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
@@ -2179,8 +2203,8 @@ class AeoLiS(IBmi):
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
 
                 elif p['boundary_offshore'] == 'constant':
-                    #constant sediment concentration (Ct) in the air (for now = 0)
-                    yCt_i[:,0]  = 0.
+                    #constant sediment concentration (Ct) in the air (for now = 0), see below
+                    pass
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -2197,8 +2221,8 @@ class AeoLiS(IBmi):
                     yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
 
                 elif p['boundary_onshore'] == 'constant':
-                    #constant sediment concentration (Ct) in the air (for now = 0)
-                    yCt_i[:,-1]  = 0.
+                    #constant sediment concentration (Ct) in the air (for now = 0), see below
+                    pass
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -2232,6 +2256,12 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
                 else:
                     raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
+
+                # a constant sediment concentration includes the corners
+                if p['boundary_offshore'] == 'constant':
+                    yCt_i[:,0]  = 0.
+                if p['boundary_onshore'] == 'constant':
+                    yCt_i[:,-1]  = 0.
                 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
-- 
2.43.0


From 7dbd5907663dded6ba231cb5f1da8b718d5092bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 65/97] fix: components of the undisturbed shear velocity held
 its magnitude

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 652c64b..6f0e89c 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -136,8 +136,8 @@ def interpolate(s, p, t):
     s = velocity_stress(s,p)
         
     s['ustar0'] = s['ustar'].copy()
-    s['ustars0'] = s['ustar'].copy()
-    s['ustarn0'] = s['ustar'].copy()
+    s['ustars0'] = s['ustars'].copy()
+    s['ustarn0'] = s['ustarn'].copy()
         
     s['tau0'] = s['tau'].copy()
     s['taus0'] = s['taus'].copy()
-- 
2.43.0


From 47d83b153283ef2084c55941ea0a7c6495b17e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 66/97] fix: topography and roughness dropped to zero around
 small grids in the shear perturbation

---
 aeolis/shear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..97eb96f 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -875,6 +875,8 @@ class WindShear:
             # in the scipy 1.10 version the regular grid interpolator does not work with non c-contigous arrays.
             # Here we make a copy as a dirty solution feeding the interpolator with ordered copies             
             inter = scipy.interpolate.RegularGridInterpolator((y_pad[:,0].copy(order='C'), x_pad[0,:].copy(order='C')), z_pad, bounds_error = False, fill_value = z0)
+            # Beyond the padded area the values at its edges continue
+            xyi = np.clip(xyi, [y_pad[0,0], x_pad[0,0]], [y_pad[-1,0], x_pad[0,-1]])
             zi = inter(xyi).reshape(xi.shape)
             
             
-- 
2.43.0


From a7d659e5b02a58aaff6d79be47a3b27b7077a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 67/97] fix: filtering of separation bubbles failed on grids
 with more rows than columns

---
 aeolis/shear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 97eb96f..27da606 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -379,8 +379,7 @@ class WindShear:
         y = gc['y']
         z = gc['z']
                 
-        nx = len(gc['z'][1])
-        ny = len(gc['z'][0])
+        ny, nx = gc['z'].shape
         dx = gc['dx']
         dy = gc['dy']
     
-- 
2.43.0


From 17446b159318dc012d92239deacef8f2271d0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 68/97] fix: shear perturbation depended on the elevation of
 the bed as a whole

---
 aeolis/shear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 27da606..7534453 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -546,7 +546,8 @@ class WindShear:
         kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
                              2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
         
-        hs = np.fft.fft2(gc['z'])
+        # Only relief matters, not the elevation of the bed as a whole
+        hs = np.fft.fft2(gc['z'] - np.mean(gc['z']))
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
         
         z0 = self.z0            # roughness length which takes into account saltation
-- 
2.43.0


From 45e39b7c555b8a26f3d97ff08dd0dbf65300cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 69/97] fix: separation bubbles filled beds below zero up to
 zero

---
 aeolis/shear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 7534453..e0cb03e 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -395,8 +395,8 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
-        zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
+        zsep =  z.copy()                                                           # total separation bubble      
+        zsep_new =  z.copy()                                                        # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
 
@@ -472,7 +472,7 @@ class WindShear:
             
             for filter_iter in range(sep_filter_iterations):
                 
-                zsep_new = np.zeros(zsep.shape) 
+                zsep_new = z.copy()
                 
                 Cut = 1.5
                 dk = 2.0 * np.pi / (np.max(x))
-- 
2.43.0


From 563ea6b94416d1da7e9291e19f233f032f3638c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 70/97] fix: separation bubbles did not reduce the shear
 velocity of profiles

---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 6f0e89c..21b8e95 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -246,6 +246,7 @@ def shear(s,p):
             slope = 0.2  # according to Durán 2010 (Sauermann 2001: c = 0.25 for 14 degrees)
             delta = 1. / (slope * tau_sep)
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
+            s['tau'] *= zsepdelta
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
             s = stress_velocity(s, p)
-- 
2.43.0


From abe426ed41c7269d2fc865b20785f850b95d2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 71/97] fix: wind across profiles saw slopes of 90 degrees and
 separated over any relief

---
 aeolis/wind.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 21b8e95..3bf2571 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -387,11 +387,9 @@ def separation1d(s, p):
         dx = dx / np.cos(udir * np.pi / 180)
         dy = dx
         direction = 1
-    elif udir == 180:
-        dx = 0.0001
-        direction = 1
-    elif udir == 360:
-        dx = 0.0001
+    elif udir == 180 or udir == 360:
+        dx = dx / 0.0001  # wind across the profile
+        dy = dx
         direction = 1
     else:
         udir = np.abs(udir-90)
-- 
2.43.0


From 5624ace05026f1d8a6c0ee096d6b0c7f4bf1ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 72/97] fix: separation bubbles depended on the elevation of
 the bed as a whole

---
 aeolis/shear.py |  2 +-
 aeolis/wind.py  | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index e0cb03e..122ebb2 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -445,7 +445,7 @@ class WindShear:
             ix_neg = (dzx[j, i+idir*5:] >= 0)                                         # i + 5??     
             
             if np.sum(ix_neg) == 0:
-                zbrink = z[j,i]                                                 # z level of brink at z(x0) 
+                zbrink = z[j,i] - np.min(z[j,i:])                               # height of brink at z(x0) 
             else:
                 zbrink = z[j,i] - z[j,i+idir*5+idir*np.where(ix_neg)[0][0]]
             
diff --git a/aeolis/wind.py b/aeolis/wind.py
index 3bf2571..d540952 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -416,8 +416,8 @@ def separation1d(s, p):
 
     zsep = z.copy()  # total separation bubble
 
-    zsep0 = np.zeros(z.shape)  # zero-order separation bubble surface
-    zsep1 = np.zeros(z.shape)  # first-oder separation bubble surface
+    zsep0 = z.copy()  # zero-order separation bubble surface
+    zsep1 = z.copy()  # first-oder separation bubble surface
 
     zfft = np.zeros((ny, nx), dtype=complex)
 
@@ -458,7 +458,7 @@ def separation1d(s, p):
         ix_neg = (dzx[j, i + 5:] >= 0)  # i + 5??
 
         if np.sum(ix_neg) == 0:
-            zbrink = z[j, i]  # z level of brink at z(x0)
+            zbrink = z[j, i] - np.min(z[j, i:])  # height of brink at z(x0)
         else:
             zbrink = z[j, i] - z[j, i + 5 + np.where(ix_neg)[0][0]]
 
@@ -487,9 +487,9 @@ def separation1d(s, p):
         # First order polynom
         dzdx1 = (zsep0[j, i - 1] - zsep0[j, i - 2]) / dx
         a = dzdx1 / c
-        ls = np.minimum(np.maximum((3. * z[j, i] / (2. * c) * (1. + a / 4. + a ** 2 / 8.)), 0.1), 200.)
-        a2 = -3 * z[j, i] / ls ** 2 - 2 * dzdx1 / ls
-        a3 = 2 * z[j, i] / ls ** 3 + dzdx1 / ls ** 2
+        ls = np.minimum(np.maximum((3. * zbrink / (2. * c) * (1. + a / 4. + a ** 2 / 8.)), 0.1), 200.)
+        a2 = -3 * zbrink / ls ** 2 - 2 * dzdx1 / ls
+        a3 = 2 * zbrink / ls ** 3 + dzdx1 / ls ** 2
         i_max1 = min(i + int(ls / dx), int(nx - 1))
         xs1 = x[j, i:i_max1] - x[j, i]
 
-- 
2.43.0


From fa9d399ae988cc220a42655108aa25345dae25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 73/97] fix: filter of separation bubbles used the number of
 the bubble for the wave numbers

---
 aeolis/shear.py | 10 +++++-----
 aeolis/wind.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 122ebb2..7cc0c86 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -393,7 +393,7 @@ class WindShear:
         stall = np.zeros(gc['z'].shape)
         bubble = np.zeros(gc['z'].shape)
         
-        k = np.array(range(0, nx))
+        k = np.fft.fftfreq(nx, 1./nx)  # wave numbers
               
         zsep =  z.copy()                                                           # total separation bubble      
         zsep_new =  z.copy()                                                        # first-oder separation bubble surface
@@ -431,10 +431,10 @@ class WindShear:
         
         # Walk through all separation bubbles and determine polynoms
         j = 9999
-        for k in range(0, n):
+        for b in range(0, n):
             
-            i = bubble_n[k,1]
-            j = bubble_n[k,0]  
+            i = bubble_n[b,1]
+            j = bubble_n[b,0]  
             
             #Bart: check for negative wind direction
             if np.sum(gc['taux']) >= 0:
@@ -475,7 +475,7 @@ class WindShear:
                 zsep_new = z.copy()
                 
                 Cut = 1.5
-                dk = 2.0 * np.pi / (np.max(x))
+                dk = 2.0 * np.pi / (nx * dx)
                 zfft[j,:] = np.fft.fft(zsep[j,:])
                 zfft[j,:] *= np.exp(-(dk*k*dx)**2/(2.*Cut**2))
                 zsep_fft = np.real(np.fft.ifft(zfft[j,:]))
diff --git a/aeolis/wind.py b/aeolis/wind.py
index d540952..8103acb 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -412,7 +412,7 @@ def separation1d(s, p):
     stall = np.zeros(z.shape)
     bubble = np.zeros(z.shape)
 
-    k = np.array(range(0, nx))
+    k = np.fft.fftfreq(nx, 1./nx)  # wave numbers
 
     zsep = z.copy()  # total separation bubble
 
@@ -450,10 +450,10 @@ def separation1d(s, p):
     bubble_n = np.asarray(np.where(bubble == True)).T
 
     # Walk through all separation bubbles and determine polynoms
-    for k in range(0, n):
+    for b in range(0, n):
 
-        i = bubble_n[k, 1]
-        j = bubble_n[k, 0]
+        i = bubble_n[b, 1]
+        j = bubble_n[b, 0]
 
         ix_neg = (dzx[j, i + 5:] >= 0)  # i + 5??
 
@@ -479,7 +479,7 @@ def separation1d(s, p):
 
         # Zero order filter
         Cut = 1.5
-        dk = 2.0 * np.pi / (np.max(x))
+        dk = 2.0 * np.pi / (nx * dx)
         zfft[j, :] = np.fft.fft(zsep0[j, :])
         zfft[j, :] *= np.exp(-(dk * k * dx) ** 2 / (2. * Cut ** 2))
         zsep0[j, :] = np.real(np.fft.ifft(zfft[j, :]))
-- 
2.43.0


From 75f192d04a1b25647ad0ac834e57aaef8269294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 74/97] fix: filtered separation bubbles started at their
 height instead of the elevation of the brink

---
 aeolis/shear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 7cc0c86..c8a6ffb 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -481,7 +481,7 @@ class WindShear:
                 zsep_fft = np.real(np.fft.ifft(zfft[j,:]))
                 
                 if np.sum(ix_neg) == 0:
-                    zbrink = zsep_fft[i]                                                 
+                    zbrink = zsep_fft[i] - np.min(zsep_fft[i:])
                 else:
                     zbrink = zsep_fft[i] - zsep_fft[i+idir*5+idir*np.where(ix_neg)[0][0]]
                 
@@ -503,7 +503,7 @@ class WindShear:
                 else:
                     xs1 = -(x[j,i:i_max1] - x[j,i])
             
-                zsep_new[j, i:i_max1] = (a3*xs1**3 + a2*xs1**2 + dzdx1*xs1 + zbrink)
+                zsep_new[j, i:i_max1] = (a3*xs1**3 + a2*xs1**2 + dzdx1*xs1 + zsep_fft[i])
             
                 # Pick the maximum seperation bubble hieght at all locations
                 zsep[j,:] = np.maximum.reduce([z[j,:], zsep[j,:], zsep_new[j,:]])
-- 
2.43.0


From 442f33b13a4fba2b872d203c178e2ee604ea047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 75/97] fix: distances behind fences in areas were measured
 along the x-axis instead of along the wind

---
 aeolis/fences.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 9026d50..d8cb254 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -342,7 +342,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
     for iy in range(ny):
 
         # intialize other grid parameters
-        x = gc['x'][iy, :]
+        x = gc['xi'][iy, :]  # in direction of the wind
         zp = gc['z'][iy, :]
         red_all = np.zeros(x.shape)
 
@@ -357,10 +357,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
 
                 # print(zp[igrid])
                 # local parameters
-                if udir >= 180 and udir <= 360:
-                    xrel = x - x[igrid]
-                else:
-                    xrel = -(x - x[igrid])
+                xrel = x - x[igrid]
 
                 red = np.zeros(x.shape)
                 mult = np.ones(x.shape)
-- 
2.43.0


From 6d6b1b343ca7ffb1542efe4531d9377046650ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 76/97] fix: fences in areas turned the wind

---
 aeolis/fences.py | 54 +++++++-----------------------------------------
 1 file changed, 8 insertions(+), 46 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index d8cb254..3098059 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -186,56 +186,22 @@ def calc_fence_shear(igrid, cgrid, udir, x0, y0, p):
     # Compute wind shear stresses on computational grid
     gc = compute_fenceshear(gi, gc, udir, p)
 
-    ustarx_init = gc['ustarx'][0,0]
-    gc['ustarx'] = gc['ustarx'] * gc['mult_all']
-    gc['ustary'] = np.zeros(gc['x'].shape)
-
-    #ensure bad data doesnt make it through
-    #ix = gc['mindist'] > 20
-    #gc['ustarx'][ix] = ustarx_init
-
-
-    gc['ustarx'], gc['ustary'] = rotate(gc['ustarx'], gc['ustary'], udir + 90)
-
-    # Rotate both (i&c) grids + results in opposite dir.
+    # Rotate both (i&c) grids in opposite dir.
     gi['x'], gi['y'] = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
 
     gc['x'], gc['y'] = rotate(gc['x'], gc['y'], -(udir + 90.), origin=(x0, y0))
 
-    gc['ustary'], gc['ustarx'] = rotate(gc['ustarx'], gc['ustary'], -(udir + 90))
+    # Interpolate reductions to real grid
+    gi['mult_all'] = interpolate(gc['x'], gc['y'], gc['mult_all'],
+                                 gi['x'], gi['y'])
 
-    # Interpolate wind shear results to real grid
-    gi['ustarx'] = interpolate(gc['x'], gc['y'], gc['ustarx'],
-                               gi['x'], gi['y'])
-    gi['ustary'] = interpolate(gc['x'], gc['y'], gc['ustary'],
-                               gi['x'], gi['y'])
-
-    # Rotate real grid and wind shear results back to orignal orientation
+    # Rotate real grid back to orignal orientation
     gc['x'], gc['y'] = rotate(gc['x'], gc['y'], udir + 90., origin=(x0, y0))
     gi['x'], gi['y'] = rotate(gi['x'], gi['y'], +(udir + 90.), origin=(x0, y0))
 
-    gi['ustarx'], gi['ustary'] = rotate(gi['ustarx'], gi['ustary'], +(udir + 90))
-
-    #avoid any boundary effects
-    #gi['ustarx'][1,:] = gi['ustarx'][2,:]
-    #gi['ustarx'][:,1] = gi['ustarx'][:,2]
-    #gi['ustarx'][-2,:] = gi['ustarx'][-3,:]
-    #gi['ustarx'][:,-2] = gi['ustarx'][:,-3]
-
-    #gi['ustary'][1,:] = gi['ustary'][1,:]
-    #gi['ustary'][:,1] = gi['ustary'][:,1]
-    #gi['ustary'][-2,:] = gi['ustary'][-2,:]
-    #gi['ustary'][:,-2] = gi['ustary'][:,-2]
-
-    gi['ustarx'][0,:] = gi['ustarx'][1,:]
-    gi['ustarx'][:,0] = gi['ustarx'][:,1]
-    gi['ustarx'][-1,:] = gi['ustarx'][-2,:]
-    gi['ustarx'][:,-1] = gi['ustarx'][:,-2]
-
-    gi['ustary'][0,:] = gi['ustary'][1,:]
-    gi['ustary'][:,0] = gi['ustary'][:,1]
-    gi['ustary'][-1,:] = gi['ustary'][-2,:]
-    gi['ustary'][:,-1] = gi['ustary'][:,-2]
+    # Reduce the wind shear without turning it
+    gi['ustarx'] = gi['ustarx'] * gi['mult_all']
+    gi['ustary'] = gi['ustary'] * gi['mult_all']
 
     return gi, gc
 
@@ -300,8 +266,6 @@ def populate_computational_grid(igrid, cgrid, alpha, x0, y0):
 
     # Interpolate input topography to computational grid
     zfc = interpolate(gi['x'], gi['y'], gi['z'], xc, yc)
-    ustarxc = interpolate(gi['x'], gi['y'], gi['ustarx'], xc, yc)
-    ustaryc = interpolate(gi['x'], gi['y'], gi['ustary'], xc, yc)
 
     # Interpolate input wind - shear
     # tauxc = interpolate(gi['x'], gi['y'], gi['taux'], xc, yc)
@@ -314,8 +278,6 @@ def populate_computational_grid(igrid, cgrid, alpha, x0, y0):
     # gc['taux'] = tauxc
     # gc['tauy'] = tauyc
     gc['zfc'] = zfc
-    gc['ustarx'] = ustarxc
-    gc['ustary'] = ustaryc
 
     return gc
 
-- 
2.43.0


From 3fe2fbd5f8b28bdb179f7ba3c6743a44a2c5684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 77/97] fix: moist sand had lower thresholds than dry sand
 following Cornelis and Gabriels

---
 aeolis/threshold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 3796f75..59919b3 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -225,8 +225,8 @@ def compute_moisture(s, p):
         a2 = 1.7e-4
         a3 = 3e14
         s['uth'][ix] = np.sqrt(a1 * (1 + mg[ix] + a2 /((p['rhog'] - p['rhoa']) * p['g'] * d ** 2) \
-                                      * (1 + a3 * 0.075 ** 2 * d / (10 ** 9 * np.exp(-6.5 * mg[ix] / p['w1_5']))) \
-                                          * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d))
+                                      * (1 + a3 * 0.075 ** 2 * d / (10 ** 9 * np.exp(-6.5 * mg[ix] / p['w1_5'])))) \
+                                          * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d)
     elif p['method_moist_threshold'].lower() == 'dong_2007':
         d = np.sum(p['grain_size'] * p['grain_dist'])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
-- 
2.43.0


From 0faa3465ec8a516c85783ad0b6abc92c459d21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 78/97] fix: histogram of generated winds failed on an argument
 matplotlib removed

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c4bfcec..0d011fe 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3338,7 +3338,7 @@ class WindGenerator():
 
         """
         fig, axs = plt.subplots(figsize=(10,4))
-        axs.hist(self.wind_speeds, bins=self.bins, normed=True, color='k')
+        axs.hist(self.wind_speeds, bins=self.bins, density=True, color='k')
         axs.set_xlabel('wind speed [m/s]')
         axs.set_ylabel('occurence [-]')
         axs.grid()
-- 
2.43.0


From 792a8f76e8c0458ba159b69d293badcfb3fcc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 79/97] fix: fences below the datum had no effect

---
 aeolis/fences.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 3098059..6c245cf 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -69,8 +69,6 @@ def update_fence_height(s, p):
     s['fence_height'] = s['fence_top']-s['zb']
     ix = s['fence_height_init'] < 0.1
     s['fence_height'][ix] = 0
-    ix = s['fence_top'] < 0.1
-    s['fence_height'][ix] = 0
     ix = s['fence_height'] < 0.1
     s['fence_height'][ix] = 0
 
-- 
2.43.0


From 2f79befe092b1a36cbeddcb00320ecd3d0db9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 80/97] fix: water levels supplied by a coupled model were
 overwritten

---
 aeolis/bed.py   | 3 ++-
 aeolis/hydro.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 2fbf079..c548b95 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -321,7 +321,8 @@ def update(s, p):
         # redistribute sediment from inactive zone to marine interaction zone
         s['zb'] += dz
         if p['process_tide']:
-            s['zs'] += dz #???
+            if 'zs' not in p['external_vars']:
+                s['zs'] += dz #???
     
     return s
 
diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 9e9f961..9a6e7a5 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -82,7 +82,7 @@ def interpolate(s, p, t):
         elif ('zs' in p['external_vars']):
             
 
-            s['SWL'] = s['zs'][:]
+            s['SWL'] = s['zs'].copy()
             s['SWL'] = apply_mask(s['SWL'], s['tide_mask'])
 
             # The dry points have to be filtered out, to prevent issues with run-up calculation later
@@ -206,7 +206,9 @@ def interpolate(s, p, t):
 
 
     # Ensure compatibility with XBeach: zs >= zb
-    s['zs'] = s['SWL'].copy()
+    # Water levels provided by some external model remain as they are
+    if not (p['process_tide'] and 'zs' in p['external_vars']):
+        s['zs'] = s['SWL'].copy()
     ix = (s['zb'] > s['zs'])
     s['zs'][ix] = s['zb'][ix]
 
-- 
2.43.0


From 20e37e172af639b2775600a41e0588b12d9e5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 81/97] fix: model failed if a coupled model supplied water
 levels without any wet cell

---
 aeolis/hydro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 9a6e7a5..caf9c5a 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -89,8 +89,11 @@ def interpolate(s, p, t):
             iwet = s['zs'] - s['zb'] > 2. * p['eps']
             s['SWL'][~iwet] = np.NaN
             mask = np.where(~np.isnan(s['SWL']))
-            interp = NearestNDInterpolator(np.transpose(mask), s['SWL'][mask])
-            s['SWL'] = interp( * np.indices(s['SWL'].shape))
+            if np.any(iwet):
+                interp = NearestNDInterpolator(np.transpose(mask), s['SWL'][mask])
+                s['SWL'] = interp( * np.indices(s['SWL'].shape))
+            else:
+                s['SWL'][:,:] = np.min(s['zs'])
 
             # fig, ax = plt.subplots()
             # pc = plt.pcolormesh(s['x'], s['y'], s['SWL'])#, vmin=1, vmax=1.3)
-- 
2.43.0


From d00822ff6999b6eac5a9db8a704e22e49cacaf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 82/97] fix: waves supplied by a coupled model were masked
 again in every step

---
 aeolis/hydro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index caf9c5a..629cd35 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -139,8 +139,8 @@ def interpolate(s, p, t):
 
     # apply complex mask (also for external model input)
     else:
-        s['Hs'] = apply_mask(s['Hs'], s['wave_mask'])
-        s['Tp'] = apply_mask(s['Tp'], s['wave_mask'])
+        Hs = apply_mask(s['Hs'].copy(), s['wave_mask'])
+        Tp = apply_mask(s['Tp'].copy(), s['wave_mask'])
 
 
     if p['process_runup']:
@@ -168,7 +168,7 @@ def interpolate(s, p, t):
 
         if ('Hs' in p['external_vars']):
 
-            eta, sigma_s, R = calc_runup_stockdon(s['Hs'], s['Tp'], p['beach_slope'])
+            eta, sigma_s, R = calc_runup_stockdon(Hs, Tp, p['beach_slope'])
             s['R'][:] = R
 
             if hasattr(s['runup_mask'], "__len__"):
-- 
2.43.0


From 4b58193e738cf9fa12ac684fe98cd40ad6477928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 83/97] fix: brinks near the upwind edge took their slope from
 the far end of the grid

---
 aeolis/shear.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index c8a6ffb..1c88490 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -450,7 +450,8 @@ class WindShear:
                 zbrink = z[j,i] - z[j,i+idir*5+idir*np.where(ix_neg)[0][0]]
             
             # Better solution and cleaner separation bubble, but no working Barchan dune (yet)
-            dzdx0 = (z[j,i] - z[j,i-3]) / (3.*dx)
+            n_up = min(i, 3)                                                # number of cells upwind of the brink, up to three
+            dzdx0 = (z[j,i] - z[j,i-n_up]) / (max(n_up, 1)*dx)
             
             a = dzdx0 / c
             ls = np.minimum(np.maximum((3.*zbrink/(2.*c) * (1. + a/4. + a**2/8.)), 0.1), 200.)
@@ -486,7 +487,7 @@ class WindShear:
                     zbrink = zsep_fft[i] - zsep_fft[i+idir*5+idir*np.where(ix_neg)[0][0]]
                 
                 # First order polynom
-                dzdx1 = (zsep_fft[i] - zsep_fft[i-3])/(3.*dx)
+                dzdx1 = (zsep_fft[i] - zsep_fft[i-n_up]) / (max(n_up, 1)*dx)
                 
                 a = dzdx1 / c
             
-- 
2.43.0


From 54d578d5af23119fa73ea0b42be7b0b13b2b7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 84/97] fix: the tide did not wet the beach, nor its
 groundwater and mixing layer, without run-up

---
 aeolis/hydro.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 629cd35..d2f4f88 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -178,6 +178,10 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        # Without run-up and set-up it is the still water level that counts
+        s['TWL'][:] = s['SWL'][:]
+        s['DSWL'][:] = s['SWL'][:]
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From 196f43167de1adf375ed4eee49b90f3d231834be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 85/97] fix: groundwater at the shoreline and the landward
 border was never found to rise

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index d2f4f88..f5b8f28 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -260,7 +260,7 @@ def update(s, p, dt,t):
         #Specify wetting or drying conditions in previous timestep
         s['wetting'] = s['gw'] > s['gw_prev']
         #Save groundwater from previous timestep
-        s['gw_prev'] = s['gw']        
+        s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
         dt_gw = int(dt / p['tfac_gw'])
-- 
2.43.0


From 0e6bbbba2718da10155a97b1a900c7afdd0f537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 86/97] fix: groundwater flow did not follow the Boussinesq
 equation

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index f5b8f28..3ca7ac5 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -468,8 +468,8 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     for i in range(len(a[:,0])):
         if 0 < shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
-            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
+            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / (2 * ds[i,shl_ix[i]:-2])
+            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4]) / (2 * ds[i,shl_ix[i]+1:-3])
             dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
 
     return dGW
-- 
2.43.0


From 5bf825b165bad2b159fce09611720d3d1727be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 87/97] fix: groundwater failed in steps shorter than its
 reduction factor and skipped the remainder of others

---
 aeolis/hydro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 3ca7ac5..cc9ce0c 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -263,8 +263,9 @@ def update(s, p, dt,t):
         s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
-        dt_gw = int(dt / p['tfac_gw'])
-        for i in range(int(dt / dt_gw)):
+        n_gw = max(1, int(np.ceil(p['tfac_gw'])))
+        dt_gw = dt / n_gw
+        for i in range(n_gw):
             t_gw = t + i * dt_gw
             interpolate(s,p,t_gw)
                 
-- 
2.43.0


From fa1da50cc6fd389bb85e6e3cab4828fbf31f5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 88/97] fix: model never ended a step if sand holds more water
 when dried than when wetted

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index cc9ce0c..ae99cdf 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -508,10 +508,10 @@ def hdelta(wetting, scan_w, gw,gw_prev,scan_d,h_delta,zb,scan_w_moist,scan_d_moi
             #Compute h_delta if there is a reversal on the drying scanning curve
             if scan_d[i,j] == True and wetting[i,j] == False and gw[i,j] > gw_prev[i,j]:
             #Solve hdelta from wetting scanning curve for which moist(h) on wetting scanning curve equals moist(h) on drying scanning curve
-                #Simple iteration method
+                #Simple iteration method, up to 10 m above the groundwater (there may be no such height if resd_moist > resw_moist)
                 h_delta_it=0 #initialize hdelta
                 F_hdelta =1
-                while F_hdelta > 0.01:           
+                while F_hdelta > 0.01 and h_delta_it < 1000:
                     h_delta_it = h_delta_it + 0.01
                     w_hdelta = (resw_moist + (satw_moist - resw_moist) / (1 + np.abs(alfaw_moist * h_delta_it) ** nw_moist) ** mw_moist)
                     d_hdelta = (resd_moist + (satd_moist - resd_moist) / (1 + np.abs(alfad_moist * h_delta_it) ** nd_moist) ** md_moist)
-- 
2.43.0


From a57c1a0cceab727efacab70c522ddd49c695b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 89/97] fix: bed and sediment became NaN if transport was
 switched off

---
 aeolis/transport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 6992a80..1953a44 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -360,7 +360,14 @@ def equilibrium(s, p):
         else:
             logger.log_and_raise('Unknown transport formulation [%s]' % p['method_transport'], exc=ValueError)   
 
-                     
+    else:
+        # nothing can be picked up, but the numerical schemes still need velocities
+        s['us'] = s['uws'][:,:,np.newaxis].repeat(p['nfractions'], axis=2)
+        s['un'] = s['uwn'][:,:,np.newaxis].repeat(p['nfractions'], axis=2)
+        s['u']  = s['uw'][:,:,np.newaxis].repeat(p['nfractions'], axis=2)
+        for var in ['Cu', 'Cuf', 'Cu0']:
+            s[var] = np.zeros(s[var].shape)
+
     s['Cu']  *= p['accfac']
     s['Cuf'] *= p['accfac']
     s['Cu0'] *= p['accfac']
-- 
2.43.0


From 33f5c47690c5b972e7f9c1329910151ba5b51a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:10 +0000
Subject: [PATCH 90/97] fix: flux boundaries let nothing in under Kawamura and
 Lettau, and multiplied an old concentration by accfac where shear had
 vanished

---
 aeolis/transport.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 1953a44..b45c131 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -312,6 +312,7 @@ def equilibrium(s, p):
         
         s['Cu']  = np.zeros(uth.shape)
         s['Cuf'] = np.zeros(uth.shape)
+        s['Cu0'] = np.zeros(uth.shape)
     
                 
         ix = (ustar != 0.)*(u != 0.)
@@ -333,10 +334,14 @@ def equilibrium(s, p):
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0, p['Ck'] * rhoa / g * (ustar[ix] + uthf[ix])**2 * (ustar[ix] - uthf[ix]) / u[ix])
+            
+            s['Cu0'][ix] = np.maximum(0., p['Ck'] * rhoa / g * (ustar0[ix] + uth0[ix])**2 * (ustar0[ix] - uth0[ix]) / u[ix])
         
         elif p['method_transport'].lower() == 'lettau':
             s['Cu'][ix]  = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uthf[ix]) / u[ix])
+            
+            s['Cu0'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar0[ix]**2 * (ustar0[ix] - uth0[ix]) / u[ix])
 
         elif p['method_transport'].lower() == 'dk':
             s['Cu'][ix]  = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uth[ix] * (ustar[ix]**2 - (0.8*uth[ix])**2) / u[ix])
-- 
2.43.0


From 2862e9557e1e1ce87e72e076122452b46fe3a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:39 +0000
Subject: [PATCH 91/97] fix: flux boundaries followed the disturbed instead of
 the flat bed with bagnold_gs

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index b45c131..0c8a12f 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -329,7 +329,7 @@ def equilibrium(s, p):
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar0[ix] - uth0[ix])**3 / u[ix])
         
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
-- 
2.43.0


From 522c3a2b39c1a4e14fdf291da79a69ef63e79261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:58 +0000
Subject: [PATCH 92/97] fix: mean grain size in thresholds and roughness was
 too large if the distribution does not sum to unity or has layers

---
 aeolis/threshold.py |  8 ++++----
 aeolis/utils.py     | 20 ++++++++++++++++++++
 aeolis/wind.py      |  2 +-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 59919b3..baedeec 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -196,7 +196,7 @@ def compute_moisture(s, p):
     elif p['method_moist_threshold'].lower() == 'shao':
         s['uth'][ix] *= np.exp(22.7 * mg[ix])
     elif p['method_moist_threshold'].lower() == 'dong_2002':
-        d = np.sum(p['grain_size'] * p['grain_dist']) * 1000
+        d = initial_mean_grain_size(p) * 1000
         if d < 0.135:
             K = 2.51
         elif d < 0.150:
@@ -211,7 +211,7 @@ def compute_moisture(s, p):
             K = 2.15
         s['uth'][ix] *= np.sqrt(1 + K * 100 * mg[ix])
     elif p['method_moist_threshold'].lower() == 'gregory_darwish':
-        d = np.sum(p['grain_size'] * p['grain_dist'])
+        d = initial_mean_grain_size(p)
         wdiff = np.zeros(mg.shape)
         wdiff[ix] = np.maximum(mg[ix] - 0.5 * p['w1_5'],0)
         a1 = 6.12e-05
@@ -220,7 +220,7 @@ def compute_moisture(s, p):
         s['uth'][ix] *= np.sqrt(1 + mg[ix] + 6 / np.pi * a1 / (p['rhog'] * p['g'] * d ** 2) \
                                 + a2 / (p['rhow'] * p['g'] * d) * np.exp(-a3 * mg[ix] / p['w1_5']) * wdiff[ix])
     elif p['method_moist_threshold'].lower() == 'cornelis':
-        d = np.sum(p['grain_size'] * p['grain_dist'])
+        d = initial_mean_grain_size(p)
         a1 = 0.013
         a2 = 1.7e-4
         a3 = 3e14
@@ -228,7 +228,7 @@ def compute_moisture(s, p):
                                       * (1 + a3 * 0.075 ** 2 * d / (10 ** 9 * np.exp(-6.5 * mg[ix] / p['w1_5'])))) \
                                           * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d)
     elif p['method_moist_threshold'].lower() == 'dong_2007':
-        d = np.sum(p['grain_size'] * p['grain_dist'])   
+        d = initial_mean_grain_size(p)   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
         logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
diff --git a/aeolis/utils.py b/aeolis/utils.py
index 0c7443a..5541820 100644
--- a/aeolis/utils.py
+++ b/aeolis/utils.py
@@ -379,6 +379,26 @@ def calc_grain_size(p, s, percent):
                 D[yi, xi] = f_linear(percent)
     return D
 
+def initial_mean_grain_size(p):
+    '''Calculate mean grain size of the initial top layer of the bed
+
+    The grain size distribution needs not to sum to unity and may have
+    a row per layer.
+
+    Parameters
+    ----------
+    p : dict
+        Model configuration parameters
+
+    Returns
+    -------
+    float
+        mean grain size
+
+    '''
+    return np.sum(p['grain_size'] * normalize(np.atleast_2d(p['grain_dist'])[0]))
+
+
 def calc_mean_grain_size(p, s):
     '''Calculate mean grain size based on mass in each fraction
 
diff --git a/aeolis/wind.py b/aeolis/wind.py
index 8103acb..a7a9e29 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -179,7 +179,7 @@ def calculate_z0(p, s):
     if p['method_roughness'] == 'constant_nikuradse':
         z0    = p['k'] / 30   # This equaion follows the definition of the bed roughness as introduced by Nikuradse
     if p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
-        z0    = np.sum(p['grain_size']*p['grain_dist']) / 30.
+        z0    = initial_mean_grain_size(p) / 30.
     if p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
         z0    = calc_mean_grain_size(p, s) / 30.
     if p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
-- 
2.43.0


From 06fde08a99736f7828ec0963480588b03f5e4716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 93/97] fix: sand below the datum moved at the speed of a
 separation bubble if separation was off

---
 aeolis/transport.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 0c8a12f..3db3884 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -190,12 +190,13 @@ def duran_grainspeed(s, p):
         
         
         # set the grain velocity to zero inside the separation bubble
-        ix = (s['zsep'] > s['zb'] + 0.01)
-        
-        sepspeed = 0.1
-        us[ix,i] = sepspeed * ets[ix, i]
-        un[ix,i] = sepspeed * etn[ix, i]
-        u[:,:,i] = np.hypot(us[:,:,i], un[:,:,i]) 
+        if p['process_shear'] and p['process_separation']:
+            ix = (s['zsep'] > s['zb'] + 0.01)
+
+            sepspeed = 0.1
+            us[ix,i] = sepspeed * ets[ix, i]
+            un[ix,i] = sepspeed * etn[ix, i]
+            u[:,:,i] = np.hypot(us[:,:,i], un[:,:,i]) 
         
     return u0, us, un, u
 
-- 
2.43.0


From 68f250e95fa0747c956fdaa09e8c9305ce5df0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 94/97] fix: unknown types of vegetation shear and growth were
 replaced by others silently

---
 aeolis/vegetation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index a74ce21..82ba7da 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -73,7 +73,11 @@ def initialize (s,p):
 
 
 def vegshear(s, p):
-    if p['vegshear_type'] == 'okin' and p['ny'] == 0:
+    vegshear_type = p['vegshear_type'].lower()
+    if vegshear_type not in ['okin', 'raupach']:
+        logger.log_and_raise('Unknown vegetation shear type [%s]' % p['vegshear_type'], exc=ValueError)
+
+    if vegshear_type == 'okin' and p['ny'] == 0:
         s = vegshear_okin(s, p)
     else:
         s = vegshear_raupach(s, p)
@@ -140,7 +144,11 @@ def grow (s, p): #DURAN 2006
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
 
     # Adding growth
-    if p['veggrowth_type'] == 'orig': #based primarily on vegetation height
+    veggrowth_type = p['veggrowth_type'].lower()
+    if veggrowth_type not in ['orig', 'duranmoore14']:
+        logger.log_and_raise('Unknown vegetation growth type [%s]' % p['veggrowth_type'], exc=ValueError)
+
+    if veggrowth_type == 'orig': #based primarily on vegetation height
         s['hveg'] += s['dhveg']*(p['dt_opt'] * p['accfac']) / (365.25*24.*3600.)
         s['hveg'] = np.maximum(np.minimum(s['hveg'], p['hveg_max']), 0.)
         s['rhoveg'] = (s['hveg']/p['hveg_max'])**2
-- 
2.43.0


From 761fbddd159cd7544b36e97b329e95bf77f2e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:33 +0000
Subject: [PATCH 95/97] fix: unknown methods and solvers ended in errors about
 variables instead of naming what is unknown

---
 aeolis/hydro.py     |  2 +-
 aeolis/model.py     |  6 ++++++
 aeolis/threshold.py |  2 +-
 aeolis/transport.py |  5 ++++-
 aeolis/wind.py      | 12 +++++++-----
 5 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index ae99cdf..296ea8b 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -286,7 +286,7 @@ def update(s, p, dt,t):
                 bound = 1
                 
             else:
-                 logger.log_and_raise('Unknown landward groundwater boundary condition' % p['boundary_gw'], exc=ValueError)
+                 logger.log_and_raise('Unknown landward groundwater boundary condition [%s]' % p['boundary_gw'], exc=ValueError)
 
         
             #Runge-Kutta timestepping
diff --git a/aeolis/model.py b/aeolis/model.py
index 0d011fe..24647f6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -710,6 +710,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
@@ -731,6 +733,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
             
         return solve
 
@@ -750,6 +754,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index baedeec..9fa4b73 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -231,7 +231,7 @@ def compute_moisture(s, p):
         d = initial_mean_grain_size(p)   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
-        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
+        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
 
     # should be .04 according to Pye and Tsoar
     # should be .64 according to Delgado-Fernandez (10% vol.)
diff --git a/aeolis/transport.py b/aeolis/transport.py
index 3db3884..63df272 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -299,7 +299,10 @@ def equilibrium(s, p):
             us = s['us']
             un = s['un']
             u = s['u']
-     
+
+        else:
+            logger.log_and_raise('Unknown grain speed method [%s]' % p['method_grainspeed'], exc=ValueError)
+
         
         ustar  = s['ustar'][:,:,np.newaxis].repeat(nf, axis=2)
         ustar0 = s['ustar0'][:,:,np.newaxis].repeat(nf, axis=2)
diff --git a/aeolis/wind.py b/aeolis/wind.py
index a7a9e29..e26e41a 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -176,16 +176,16 @@ def calculate_z0(p, s):
     '''
     if p['method_roughness'] == 'constant':
         z0    = p['k']  # Here, the ks (roughness length) is equal to the z0, this method is implemented to assure backward compatibility. Note, this does not follow the definition of z0 = ks /30 by Nikuradse    
-    if p['method_roughness'] == 'constant_nikuradse':
+    elif p['method_roughness'] == 'constant_nikuradse':
         z0    = p['k'] / 30   # This equaion follows the definition of the bed roughness as introduced by Nikuradse
-    if p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
+    elif p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
         z0    = initial_mean_grain_size(p) / 30.
-    if p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
+    elif p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
         z0    = calc_mean_grain_size(p, s) / 30.
-    if p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
+    elif p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
         d50 = calc_grain_size(p, s, 50)
         z0 = 2*d50 / 30.
-    if p['method_roughness'] == 'vanrijn_strypsteen': # based on van Rijn and Strypsteen, 2019; Strypsteen et al., 2021
+    elif p['method_roughness'] == 'vanrijn_strypsteen': # based on van Rijn and Strypsteen, 2019; Strypsteen et al., 2021
         if len(p['grain_dist']) == 1:  # if one grainsize is used the d90 is calculated with the d50 
             d50 = p['grain_size']
             d90 = 2*d50
@@ -204,6 +204,8 @@ def calculate_z0(p, s):
         alpha2 = 1
         gamma_r = 1 + 1/T
         z0    = (d90 + alpha1 * gamma_r * d50 * np.power(T, alpha2)) / 30
+    else:
+        logger.log_and_raise('Unknown roughness method [%s]' % p['method_roughness'], exc=ValueError)
     return z0
 
 
-- 
2.43.0


From 2e2d5c2ac86b5aec29a81e57b73950b9a93e06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 96/97] fix: processes set to False, off or any other text than
 T and F were switched on, text for numbers was found late

---
 aeolis/inout.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index c39cc3d..976280c 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -199,6 +199,14 @@ def check_configuration(p):
 
     '''
 
+    # text is no number, and counts as switched on ('False' as well)
+    for k, v in DEFAULT_CONFIG.items():
+        if isinstance(p.get(k), str):
+            if isinstance(v, bool):
+                logger.log_and_raise('Invalid value for %s [%s], use T or F' % (k, p[k]), exc=ValueError)
+            elif isinstance(v, (int, float)):
+                logger.log_and_raise('Invalid value for %s [%s]' % (k, p[k]), exc=ValueError)
+
     # check validity of configuration
     if not isarray(p['xgrid_file']) or \
        not isarray(p['bed_file']) or (not isarray(p['ygrid_file']) and p['ny'] > 0):
-- 
2.43.0


From 1df056a2a8d806db572b32668420d3d9004ec6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 97/97] fix: disk errors while reading input were hidden, and
 input read at the second attempt became complex

---
 aeolis/inout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 976280c..0dd3fac 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -305,7 +305,9 @@ def parse_value(val, parse_files=True, force_list=False):
             try:
                 val = np.loadtxt(val, dtype=dtype)
                 break
-            except:
+            except OSError:
+                raise
+            except Exception:
                 pass
         return val
     elif val == '':
-- 
2.43.0

