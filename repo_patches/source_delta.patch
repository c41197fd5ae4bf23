From d6d3e908a42bf856a6e2d57cfadc0f9a2de19723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 01/21] fix: decode the fraction of the nav clock field for any
 number of digits

'.50' was read as 50000 microseconds and '.123' overflowed datetime's
microsecond range.
---
 shipgrav/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..040cc80 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,9 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        sec0, _, frac = post[0][4:].partition('.')  # sec.fraction
+        msec[i] = int(frac[:6].ljust(6, '0'))  # microsec, for any number of digits
+        sec[i] = int(sec0)  # sec
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From 38aa82ffa73da52df83e27232eea7560ec62aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 02/21] fix: read_nav returns -999 when a file has no line of
 the talker

Only the Ride/Sikuliaq parser reported the missing talker; for every other
vessel min() of an empty array raised ValueError.
---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 040cc80..a8aa00e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -110,6 +110,8 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
 
         if type(timest) is int and timest == -999:
             return timest  # eg looking for a talker that is not in a file
+        if len(timest) == 0:  # same thing, for parsers that return empty arrays
+            return -999
 
         # posix, seconds, for interpolation
         sec_time = np.array([d.timestamp() for d in timest])
-- 
2.43.0


From 194ba5cc26f20cba18c94f58269f7e1b71fc6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 03/21] fix: Revelle BGM serial timestamps are always UTC-aware

parse_dates leaves stamps without a zone designator naive.
---
 shipgrav/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index a8aa00e..5d30d2e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -502,7 +502,8 @@ def _bgmserial_Revelle(path):
     """
     def count(x): return (int(x.split(':')[-1]))
     dat = pd.read_csv(path, delimiter=' ', names=['date_time', 'counts'], usecols=(0, 1),
-                      parse_dates=[0], converters={'counts': count})
+                      converters={'counts': count})
+    dat['date_time'] = pd.to_datetime(dat['date_time'], utc=True)
     return dat
 
 def _bgmserial_Langseth(path):
-- 
2.43.0


From 6bcad4e237ec25cf1e0a02aed3bf2eedee1983da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 04/21] fix: ISO8601 stamps of DGS serial files are always
 UTC-aware

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 5d30d2e..7ecdfc1 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -731,7 +731,7 @@ def _dgs_raw_general(path):
         # split string for possible timestamp
         try:
             times = [e.split(' ')[0] for e in dat['string'].values]
-            dat['date_time'] = pd.to_datetime(times, format='ISO8601')
+            dat['date_time'] = pd.to_datetime(times, utc=True, format='ISO8601')
         except:
             print('raw (serial) timestamps not found/converted')
             pass  # if it doesn't work, oh well
-- 
2.43.0


From 738a146d9aec7ae7630f4ca328af8e45c264c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 05/21] fix: read_other_stuff keeps the last line of the data
 file

The loop stopped as soon as the end of the file was reached, before the
line just read was looked at.
---
 shipgrav/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 7ecdfc1..a91bcc5 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -825,12 +825,13 @@ def read_other_stuff(yaml_file, data_file, tag):
     # checks done, read in all the lines for this feed
     lines = []
     s.seek(0)
-    # get line, bytes->string, strip \r\n from end
-    ln = s.readline().decode('ascii').rstrip()
-    while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+    raw = s.readline()
+    while raw:  # an empty read means we got to the end of the file
+        # bytes->string, strip \r\n from end
+        ln = raw.decode('ascii').rstrip()
         if tag in ln:
             lines.append(ln)
-        ln = s.readline().decode('ascii').rstrip()  # next!
+        raw = s.readline()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From f89e4e5851eee3c9db50529f01d46863a43488e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 06/21] fix: read_other_stuff selects the lines by the tag it
 splits them at

A line that mentions the tag without its $ was kept and then could not
be split, raising IndexError.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index a91bcc5..c835188 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -819,7 +819,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # check to make sure tag appears in the data file
     with open(data_file, 'rb') as file:
         s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
-        result = s.find(bytes(tag, 'ascii'))
+        result = s.find(bytes(dtag, 'ascii'))
     assert result != -1, '%s not in data file %s' % (tag, data_file)
 
     # checks done, read in all the lines for this feed
@@ -829,7 +829,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     while raw:  # an empty read means we got to the end of the file
         # bytes->string, strip \r\n from end
         ln = raw.decode('ascii').rstrip()
-        if tag in ln:
+        if dtag in ln:
             lines.append(ln)
         raw = s.readline()  # next!
 
-- 
2.43.0


From f4c30047db166f6899235d6e96587c40f80dd76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 07/21] fix: release the memory map of the data file in
 read_other_stuff

---
 shipgrav/io.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index c835188..1ff4611 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -817,21 +817,21 @@ def read_other_stuff(yaml_file, data_file, tag):
     ), '%s feed specs not present in yaml file %s' % (tag, yaml_file)
 
     # check to make sure tag appears in the data file
-    with open(data_file, 'rb') as file:
-        s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
+    with open(data_file, 'rb') as file, \
+            mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ) as s:
         result = s.find(bytes(dtag, 'ascii'))
-    assert result != -1, '%s not in data file %s' % (tag, data_file)
-
-    # checks done, read in all the lines for this feed
-    lines = []
-    s.seek(0)
-    raw = s.readline()
-    while raw:  # an empty read means we got to the end of the file
-        # bytes->string, strip \r\n from end
-        ln = raw.decode('ascii').rstrip()
-        if dtag in ln:
-            lines.append(ln)
-        raw = s.readline()  # next!
+        assert result != -1, '%s not in data file %s' % (tag, data_file)
+
+        # checks done, read in all the lines for this feed
+        lines = []
+        s.seek(0)
+        raw = s.readline()
+        while raw:  # an empty read means we got to the end of the file
+            # bytes->string, strip \r\n from end
+            ln = raw.decode('ascii').rstrip()
+            if dtag in ln:
+                lines.append(ln)
+            raw = s.readline()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 7ebada8615351c54804cad93bfdc02db55750cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 08/21] fix: cross-coupling fit uses the last segment and whole
 segments

With a gap in the timestamps everything after the last gap was left out of
the fit, as was the last sample before each gap.
---
 shipgrav/grav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..c8468f9 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -365,13 +365,13 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         - **model** (*statsmodels.OLS*)- linear regression model
     """
 
-    end_inds = np.array([len(faa_in),])  # just the one
+    end_inds = np.array([len(faa_in)-1,])  # last index of the segment, just the one
     if times is not None:  # supplied a vector of timestamps to go with everything else
         # split data into segments of continuous even sample rate
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], end_inds)
 
     end_inds = np.append(-1, end_inds)  # add starting point
 
@@ -383,12 +383,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]+1:end_inds[i]+1]
+        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]+1]
+        ve = ve_in[end_inds[i-1]+1:end_inds[i]+1]
+        al = al_in[end_inds[i-1]+1:end_inds[i]+1]
+        ax = ax_in[end_inds[i-1]+1:end_inds[i]+1]
+        level = level_in[end_inds[i-1]+1:end_inds[i]+1]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From 760184f279fca40c340d2939c7025379c807e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 09/21] fix: up_vecs no longer overwrites the caller's
 accelerations

The example that relied on the NaNs being removed in place now does it
itself.
---
 example-scripts/dgs_ccp_calc.py | 2 ++
 shipgrav/grav.py                | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/example-scripts/dgs_ccp_calc.py b/example-scripts/dgs_ccp_calc.py
index b584aaf..b8f342c 100644
--- a/example-scripts/dgs_ccp_calc.py
+++ b/example-scripts/dgs_ccp_calc.py
@@ -118,6 +118,8 @@ vel[np.isnan(vel)] = 0
 
 acc_cross, acc_long = sgn.rotate_acceleration_EN_to_cl(
     crse, gps_eacc, gps_nacc)  # gps-derived cross and long accel
+acc_cross[np.isnan(acc_cross)] = 0
+acc_long[np.isnan(acc_long)] = 0
 
 # %%
 # tilt correction
diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index c8468f9..4195d38 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -501,6 +501,9 @@ def up_vecs(dt, g, cacc, lacc, on_off, cper, cdamp, lper, ldamp):
     :return: **up_vecs** (*3xN ndarray*) - cross, long, and up vectors for the platform
 
     """
+    # work on copies so that the input arrays stay as they are
+    cacc, lacc = np.array(cacc), np.array(lacc)
+
     # clean out any nans in the accelerations
     cacc[np.isnan(cacc)] = 0
     lacc[np.isnan(lacc)] = 0
-- 
2.43.0


From 9266d383551f278bd2e9ffae1807308c192fd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 10/21] fix: grav1d_padded wavenumbers for an odd number of
 points

The folding index was off for odd lengths, so the spectrum was multiplied by
wavenumbers that are not symmetric about zero.
---
 shipgrav/grav.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 4195d38..b3fd934 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -660,14 +660,9 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
 
-    k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-    k2 = k**2
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
-    xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    # wavenumbers: distance of each discrete frequency from zero
+    kwn1 = 2*np.pi*np.abs(np.fft.fftfreq(nxt, dx))
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
-- 
2.43.0


From 270006763c1d93e6c1756ee5c21208b7695432f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 11/21] fix: grav2d_folding without folding works for odd grid
 sizes

The wavenumber vector came out one element too long or too short and
the assignment failed.
---
 shipgrav/grav.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index b3fd934..6365d05 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -745,16 +745,6 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
 
     grav = grav1*drho
 
-    # for wavenumbers
-    kint1 = (2*np.pi)/(nxt*dx)
-    kint2 = (2*np.pi)/(nyt*dy)
-    kx2 = kint1*kint1
-    ky2 = kint2*kint2
-
-    # folding frequency:
-    mfx = int(nxt/2 + 1)
-    mfy = int(nyt/2 + 1)
-
     # the important part:
     # (1) compute wavenumbers
     # (2) transform topography with fft
@@ -762,14 +752,9 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
     # (4) upward continue, transform back to space domain, multiply
     #     by constants
 
-    # wavenumbers:
-    yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
-    yyk = (yj-1)*(yj-1)*ky2
-
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
-    xxk = (xi-1)*(xi-1)*kx2
+    # wavenumbers (squared) of the discrete frequencies, for any grid size
+    yyk = (2*np.pi*np.fft.fftfreq(nyt, dy))**2
+    xxk = (2*np.pi*np.fft.fftfreq(nxt, dx))**2
 
     kwn1 = np.zeros((nxt, nyt))
     for j in range(nyt):
-- 
2.43.0


From 9158359d359993e80d8a311307290460c516266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 12/21] fix: tidal correction uses the UTC hour of timestamps
 in other zones

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 6365d05..c80b498 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -31,6 +31,7 @@ def _convert_datetime_tidetime(timestamp):
     """
     origin_time = datetime(1899, 12, 31, 12, 0, 0, tzinfo=timezone.utc)
     dt = timestamp - origin_time
+    timestamp = timestamp.astimezone(timezone.utc)  # hours are UTC hours
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
     julian_hour = (timestamp.hour + timestamp.minute /
-- 
2.43.0


From c125274afbee92a0040022bc4ba73fd7df94cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 13/21] fix: crustal_thickness_2D filters each frequency by its
 own wavenumber

Indices counted from one in the original were used counted from zero, so the
mean was filtered as if it were the first harmonic and the filter was not
symmetric about zero frequency (the thickness came out complex).
---
 shipgrav/grav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index c80b498..5c87452 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1172,8 +1172,8 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     kcut1 = 2*np.pi/wlarge
     kcut2 = 2*np.pi/wsmall
     dkcut = kcut2 - kcut1
-    mfx = nx/2 + 1
-    mfy = ny/2 + 1
+    mfx = nx/2
+    mfy = ny/2
 
     prod = 1./(nx*ny)  # dimension correction factor
 
@@ -1191,13 +1191,13 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
         yj = j
         if j > mfy:
             yj = mfy*2 - j
-        yyk = kint2**2 * (yj-1)**2
+        yyk = kint2**2 * yj**2
 
         for i in range(nx):
             xi = i
             if i > mfx:
                 xi = mfx*2 - i
-            xxk = kint1**2 * (xi-1)**2
+            xxk = kint1**2 * xi**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
 
-- 
2.43.0


From 6827cada4ba00a890c6ee9e474687b6cde4fd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 14/21] fix: dateline clean-up assigns the shifted longitudes

The values of a frame are read-only with pandas copy-on-write, so the
clean-up raised ValueError, and DataFrame.replace() is not an assignment.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 1ff4611..3809400 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -357,7 +357,7 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].values.copy()  # .values may be read-only
 
     if sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
@@ -373,7 +373,7 @@ def _clean_180cross(gps_nav):
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav = gps_nav.assign(lon=newlon)
 
     return gps_nav
 
-- 
2.43.0


From caba34f9e8315683d4ebd864a278fc9c0bc5308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 15/21] fix: a right click without picked points does not raise
 in the picker

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..f2ba248 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -269,7 +269,7 @@ class _SnappingCursor:
             self.i_seg.append(ind_x)
             self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
 
-        if event.button == 3:  # pop the last element of the lists
+        if event.button == 3 and self.i_seg:  # pop the last element of the lists
             self.x_seg.pop()
             self.y_seg.pop()
             self.i_seg.pop()
-- 
2.43.0


From 60a7f751a20fac92bbdbcde8396f3525beffd40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 16/21] fix: a left click outside of the axes does not raise in
 the picker

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index f2ba248..279d1c6 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -261,7 +261,7 @@ class _SnappingCursor:
             self.ax1.figure.canvas.draw()
 
     def on_mouse_click(self, event):
-        if event.button == 1:
+        if event.button == 1 and event.xdata is not None:  # None outside of the axes
             x, y = event.xdata, event.ydata
             ind_x = np.argmin(abs(x - self.data['tsec']))
             self.x_seg.append(self.data.iloc[ind_x]['lon_new'])
-- 
2.43.0


From 8deed7b77b76a10760b5186dd57d224f07bb5ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 17/21] fix: ini values keep everything after the first '=' and
 their comment

A value was cut at its second '=', and the comment behind a value that
gets quoted was taken from the value after it had been cut off.
---
 shipgrav/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 279d1c6..0bf58ab 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -146,11 +146,10 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
-            val = val.split('#')[0]
-            extra_comm = '='.join(val.split('#')[1:])
+            val, extra_comm = val.split('#', 1)
         val = val.strip()
 
         if val == 'true' or val == 'false':  # skip bools
-- 
2.43.0


From cde0ae564cedd11834572dfa1d2e622d3749d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 18/21] fix: clean_ini_to_toml releases its output file when a
 line is malformed

An exception on a line without '=' left the output open and half written.
---
 shipgrav/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 0bf58ab..1cf5a7f 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -1,4 +1,5 @@
 import re
+from io import StringIO
 
 import numpy as np
 from pandas import DataFrame
@@ -135,7 +136,7 @@ def clean_ini_to_toml(ini_file):
 
     # fix unquoted strings and write
     opath = ini_file.rstrip('ini')+'toml'
-    fo = open(opath, 'w')
+    fo = StringIO()  # collects the output
     lines = text.split('\n')
     for ln in lines:
         if ln.startswith('$'):
@@ -170,7 +171,8 @@ def clean_ini_to_toml(ini_file):
         fo.write(ln)
         fo.write('\n')
 
-    fo.close()
+    with open(opath, 'w') as file:
+        file.write(fo.getvalue())
     return opath
 
 
-- 
2.43.0


From 629af1fb9b610b770a0ec72ec0a4dc1abbe0c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 19/21] fix: indented comments and lines of blanks are kept by
 clean_ini_to_toml

They were taken for key=value lines and raised IndexError.
---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 1cf5a7f..0ea6e2d 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -142,7 +142,7 @@ def clean_ini_to_toml(ini_file):
         if ln.startswith('$'):
             ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
 
-        if ln.startswith('[') or ln.startswith('#') or ln == '':
+        if ln.lstrip().startswith(('[', '#')) or ln.strip() == '':
             fo.write(ln)
             fo.write('\n')
             continue
-- 
2.43.0


From a4509ed169ea361e2c4f02483f27be759ba26c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 20/21] fix: remove the mean from the topography in
 grav1d_padded

The series was summed over powers of the absolute topography while the
continuation distance was already referred to the mean level, so that the
anomaly was off by exp(k*mean) at wavenumber k.
---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 5c87452..543fa82 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -660,6 +660,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     padtopo = np.append(topo[0]*wing, np.append(topo, topo[-1]*wing))
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
+    padtopo = padtopo - baselev  # relief about the baseline the continuation is referred to
     nxt = len(padtopo)
 
     # wavenumbers: distance of each discrete frequency from zero
-- 
2.43.0


From ecc94526482e13e1236397cbcfd3f8915745dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 21/21] fix: trim the leveling correction like the data it is
 paired with

---
 example-scripts/dgs_ccp_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/example-scripts/dgs_ccp_calc.py b/example-scripts/dgs_ccp_calc.py
index b8f342c..7c6dd74 100644
--- a/example-scripts/dgs_ccp_calc.py
+++ b/example-scripts/dgs_ccp_calc.py
@@ -131,6 +131,7 @@ long_in_plat = acc_long*up_vecs[0, :]
 level_error = lat_corr - igf_in_plat - long_in_plat + cross_in_plat
 
 dgs_data = dgs_data.iloc[2:]  # the first two points' FAA has some edge effect
+level_error = level_error.iloc[2:]  # keep the leveling correction in step
 
 # %%
 # calculate cross-coupling coefficients
-- 
2.43.0

