From 85ba8f24a2c9c60f1b9b2b64736e587bb441df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 01/19] fix: close the grid file in write_mitgridfile

---
 simplegrid/gridio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/gridio.py b/simplegrid/gridio.py
index f53ab79..5de0df6 100644
--- a/simplegrid/gridio.py
+++ b/simplegrid/gridio.py
@@ -160,6 +160,6 @@ def write_mitgridfile(filename,griddata,ni,nj,verbose=False):
         # append to output file:
         outarray.tofile(fd)
 
-    fd.close
+    fd.close()
     return True
 
-- 
2.43.0


From 2b04cc53364d2931d99b30c09122fd1bccd6b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 02/19] fix: close open boundary files in getobcs

---
 simplegrid/getobcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d9d0b3b..3c14bde 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -480,7 +480,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
                     filename = 'OB'+ob+response.lower() # plus an optional name?
                     fd = open(os.path.join(resultsdir,filename),'wb')
                     outarray.tofile(fd)
-                    fd.close
+                    fd.close()
 
 
 def main():
-- 
2.43.0


From ec18744bca08a4fe1e991f75d2db55fbaf34d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 03/19] fix: write open boundary matrices in column-major order

---
 simplegrid/getobcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 3c14bde..316abcf 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -479,7 +479,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
                     outarray = np.asfortranarray(obs[ob]['ob_array'],dtype='>f8')
                     filename = 'OB'+ob+response.lower() # plus an optional name?
                     fd = open(os.path.join(resultsdir,filename),'wb')
-                    outarray.tofile(fd)
+                    # np.tofile always writes in C order, so write the transpose to
+                    # get fortran (column-major) ordering on file:
+                    outarray.T.tofile(fd)
                     fd.close()
 
 
-- 
2.43.0


From 2356a4c1afd3a515a581cb39a62325cf3ede6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 04/19] fix: accept open boundary index vectors of any length
 in getobcs

---
 simplegrid/getobcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 316abcf..fcb73a2 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -236,19 +236,19 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # defaults:
 
     do_ob_jnorth, do_ob_jsouth, do_ob_ieast, do_ob_iwest = [True]*4
-    if not ob_jnorth:
+    if kwargs.get('OB_Jnorth') is None:
         ob_jnorth = np.ones(ni_regional,dtype=int)*nj_regional
     elif not any(ob_jnorth!=0):
         do_ob_jnorth = False
-    if not ob_jsouth:
+    if kwargs.get('OB_Jsouth') is None:
         ob_jsouth = np.ones(ni_regional,dtype=int)
     elif not any(ob_jsouth!=0):
         do_ob_jsouth = False
-    if not ob_ieast:
+    if kwargs.get('OB_Ieast') is None:
         ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional
     elif not any(ob_ieast!=0):
         do_ob_ieast = False
-    if not ob_iwest:
+    if kwargs.get('OB_Iwest') is None:
         ob_iwest = np.ones(nj_regional,dtype=int)
     elif not any(ob_iwest!=0):
         do_ob_iwest = False
-- 
2.43.0


From f1e59736e6d6d6c3bb9400f53c6264c1959864ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 05/19] fix: negative south and west open boundary indices
 count from the far end

---
 simplegrid/getobcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index fcb73a2..74b0772 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -258,11 +258,11 @@ def getobcs( strict=False, verbose=False, **kwargs):
     if do_ob_jnorth:
         ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
     if do_ob_jsouth:
-        ob_jsouth = ob_jsouth - 1
+        ob_jsouth = np.array([nj_regional+1+j if j<0 else j for j in ob_jsouth]) - 1
     if do_ob_ieast:
         ob_ieast = np.array([ni_regional+1+i if i<0 else i for i in ob_ieast]) - 1
     if do_ob_iwest:
-        ob_iwest = ob_iwest - 1
+        ob_iwest = np.array([ni_regional+1+i if i<0 else i for i in ob_iwest]) - 1
 
     #
     # output directory:
-- 
2.43.0


From 3b78c2fe99f56fbd1c8d0e33d57eedb8fe3c1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 06/19] fix: use each output time once for tiled results in
 getobcs

---
 simplegrid/getobcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 74b0772..d0ca9de 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -337,8 +337,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
 
     # get integer time steps from filenames:
     re_time = re.compile('\d+')
-    times = sorted( [int(re_time.findall(os.path.basename(f))[0])
-        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))])
+    # (tiled output has several files per time step):
+    times = sorted( set([int(re_time.findall(os.path.basename(f))[0])
+        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))]))
     ntimes = len(times)
     # open up a temperature file, get depths from matrix size:
     T1 = mds.rdmds(os.path.join(parent_resultsdir,'T'),times[0])
-- 
2.43.0


From 84df66e4214c58d8264c851533d534a71a64a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 07/19] fix: sggetobcs accepts whole open boundary index
 vectors

---
 simplegrid/getobcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d0ca9de..01d5bbb 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -37,18 +37,18 @@ def create_parser():
         number of tracer points in the regional model grid 'y' direction""")
     parser.add_argument('--parent_resultsdir', required=True, help="""
         MITgcm parent grid results directory""")
-    parser.add_argument('--OB_Jnorth', type=int, help="""
+    parser.add_argument('--OB_Jnorth', type=int, nargs='+', help="""
         North boundary vector of length ni_regional containing boundary tracer
         cell j indices per MITgcm OBCS package conventions.  Boundaries are
         ignored for any index vector that is identically zero, and defaults to
         edge tracer cell indices if not provided. Negative indices supported.""")
-    parser.add_argument('--OB_Jsouth', type=int, help="""
+    parser.add_argument('--OB_Jsouth', type=int, nargs='+', help="""
         South boundary vector of length ni_regional containing boundary tracer
         cell j indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Ieast', type=int, help="""
+    parser.add_argument('--OB_Ieast', type=int, nargs='+', help="""
         East boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Iwest', type=int, help="""
+    parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
     parser.add_argument('--resultsdir', required=True, help="""
-- 
2.43.0


From 616109d1733b9dd978f67670a40b4d4c90f011f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 08/19] fix: sggetobcs --resultsdir is optional as documented

---
 simplegrid/getobcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 01d5bbb..cb7365f 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -51,7 +51,7 @@ def create_parser():
     parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--resultsdir', required=True, help="""
+    parser.add_argument('--resultsdir', help="""
         directory in which to store resulting open boundary condition matrices.
         Defaults to parent_resultsdir+'_obcs' if not provided.""")
     parser.add_argument('-s','--strict',action='store_true', help="""
-- 
2.43.0


From b6ac998ec0093a940fce84dc72c399c52d534a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 09/19] fix: regrid no longer rotates the caller's
 mitgrid_matrices

---
 simplegrid/regrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3cffefc..bd43f4f 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -160,7 +160,8 @@ def regrid( strict=False, verbose=False, **kwargs):
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-        mitgrid = mitgrid_matrices
+        # copy, so that rotations below are not seen by the caller:
+        mitgrid = dict(mitgrid_matrices)
         # ni, nj from tracer cell counts:
         (ni,nj) = mitgrid['XC'].shape
     else:
-- 
2.43.0


From 6fdd208cc23402f4100218785fa295183f19ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 10/19] fix: mds2mitgrid only ignores fields whose files are
 absent

---
 simplegrid/mds2mitgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 3696226..1c4db76 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -34,7 +34,7 @@ def mds2mitgrid(rundir='./',verbose=False):
             if verbose:
                 print('reading {0:>3s}...'.format(name),end='')
             tmp = mds.rdmds(rundir+os.sep+name).T
-        except:
+        except IOError:
             if verbose:
                 print('............no data')
             continue
-- 
2.43.0


From d2a4408be29a4ccf74fdfca838cf9c82be23cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 11/19] fix: rdmds opens memory-mapped input files read-only

---
 simplegrid/mds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4b2da70..4c244f0 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -266,7 +266,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
     import functools
     usememmap = usememmap or mm
     if usememmap:
-        readdata = np.memmap
+        readdata = functools.partial(np.memmap,mode='r')
     else:
         readdata = fromfileshape
 
@@ -306,7 +306,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     if usememmap:
         recsatonce = True
-        readdata = np.memmap
+        readdata = functools.partial(np.memmap,mode='r')
     else:
         recsatonce = allrec
         readdata = fromfileshape
-- 
2.43.0


From e4cf926385aacb08e2ac1bb24c68474403dec5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 12/19] fix: squad_uarea no longer disables all warnings of the
 process

---
 simplegrid/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 9ee6c7e..4671a7c 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -80,6 +80,8 @@ def nearest(lon,lat,lons,lats,geod):
     return i,j,dist
 
 
+# (errstate only because some geometries are poorly conditioned)
+@np.errstate(divide='ignore',invalid='ignore')
 def squad_uarea( cart):
     """Compute quadrilateral surface areas for cartesian array of corner points
     on the unit sphere.
@@ -102,10 +104,6 @@ def squad_uarea( cart):
 
     """
 
-    # only because some geometries are poorly conditioned:
-    import warnings
-    warnings.filterwarnings("ignore")
-
     area = np.zeros((np.size(cart,0)-1,np.size(cart,1)-1))
 
     for x_idx in np.arange(np.size(cart,0)-1):
-- 
2.43.0


From 41898449fe4a6670af20a60dce1645d58b7fdc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 13/19] fix: matchedges rejects coincident edges with different
 numbers of points

---
 simplegrid/matchedges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 9ca0346..b00a08a 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -153,6 +153,9 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     if (a_edge+b_edge!=N+S) and (a_edge+b_edge!=E+W):
         raise ValueError('Inconsistent edge match for input grids')
 
+    if aXG[a_edge_slice].shape!=bXG[b_edge_slice].shape:
+        raise ValueError('Matching edges have different numbers of points')
+
     if verbose:
         print(msg)
 
-- 
2.43.0


From 4a986bae51e1ea7324edd7c190231910d7896beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 14/19] fix: mds2mitgrid reports files that are present but
 cannot be read

---
 simplegrid/mds2mitgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 1c4db76..46dbde0 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -1,4 +1,5 @@
 
+import errno
 import numpy as np
 import os
 
@@ -34,7 +35,9 @@ def mds2mitgrid(rundir='./',verbose=False):
             if verbose:
                 print('reading {0:>3s}...'.format(name),end='')
             tmp = mds.rdmds(rundir+os.sep+name).T
-        except IOError:
+        except IOError as e:
+            if e.errno not in (None,errno.ENOENT):
+                raise
             if verbose:
                 print('............no data')
             continue
-- 
2.43.0


From 63065118aac94b30623c83065aae8cecd7bd3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 15/19] fix: parsemeta reports malformed real values as
 ParseError

---
 simplegrid/mds.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4c244f0..402c1dd 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -60,13 +60,13 @@ def parse1(s):
         s = re.sub(r"''","'",s)
         return s
 
-    if '.' in s or 'e' in s.lower():
-        return float(s)
-    else:
-        try:
+    try:
+        if '.' in s or 'e' in s.lower():
+            return float(s)
+        else:
             return int(s)
-        except ValueError:
-            raise ParseError("Cannot parse value: " + s)
+    except ValueError:
+        raise ParseError("Cannot parse value: " + s)
 
 
 _closing = {'[':']',
-- 
2.43.0


From a5afec1f16888f6e481e17eacc0905e758bd4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 16/19] fix: parsemeta reports assignments without a value as
 ParseError

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 402c1dd..07cc3ae 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -98,7 +98,7 @@ def parsemeta(metafile):
             raise ParseError(metafile,line)
 
         # look for the opening delimiter ('[' or '{')
-        opening = line[0]
+        opening = line[:1]
         try:
             closing = _closing[opening]
         except KeyError:
-- 
2.43.0


From a4a09788dbfd06cc85cf2d3be706d71f828fb649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 17/19] fix: parsemeta reports a missing closing bracket before
 another assignment

---
 simplegrid/mds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 07cc3ae..be735a1 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -111,7 +111,12 @@ def parsemeta(metafile):
             except StopIteration:
                 raise ParseError(metafile,line,'No closing ' + closing + ' found.')
 
-            line += ' ' + strip_comments(nextline).rstrip()
+            nextline = strip_comments(nextline).rstrip()
+            # the next assignment can't be part of this value
+            if re.match(r' *\w+ *= *[\[{]', nextline):
+                raise ParseError(metafile,line,'No closing ' + closing + ' found.')
+
+            line += ' ' + nextline
 
         if line[-2:] != closing + ';':
             raise ParseError(metafile,line,
-- 
2.43.0


From d8950ced5e02027c7efca47c0b0f7d626be78214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 18/19] fix: iteration numbers of tiled output are found when
 its first tile is blank

---
 simplegrid/mds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index be735a1..6bc2ab7 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -163,14 +163,15 @@ def fromfileshape(filename,dtype,shape=None,**kwargs):
 def scanforfiles(fname):
     """ return list of iteration numbers for which metafiles with base fname exist """
     import glob
-    allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.001.001.meta')
+    # any tile will do: the first one may be blank
+    allfiles = glob.glob(fname + '.' + 10*'[0-9]' + 2*('.'+3*'[0-9]') + '.meta')
     if len(allfiles) == 0:
         allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.meta')
         off = -5
     else:
         off = -13
 
-    itrs = [ int(s[off-10:off]) for s in allfiles ]
+    itrs = list(set( int(s[off-10:off]) for s in allfiles ))
     itrs.sort()
     return itrs
 
-- 
2.43.0


From 8d8f933d9d73b6b6432b4ca72cbf671b56b9bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 19/19] fix: all records can be read without squeezing
 singleton dimensions

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 6bc2ab7..a946a48 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -471,7 +471,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             squeezed = tuple( d for d in dims if d > 1 )
         else:
             # squeeze all that came from scalar arguments
-            keepers = [itrsislist, np.iterable(rec)] + [np.iterable(l) for l in lev]
+            keepers = [itrsislist, np.iterable(rec) or len(reclist) > 1] + [np.iterable(l) for l in lev]
             squeezed = tuple( d for d,keep in zip(dims, keepers) if keep )
 
         arr = arr.reshape(squeezed+arr.shape[2+nlev:])
-- 
2.43.0

