From 50859cdbdcc7ff497107360ec43b7ca8cac7e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 01/45] fix: hour() must not crash in an hour in which no area
 is short

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..62fddd2 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -149,6 +148,7 @@ def hour(
                 JHOURT,
             )
 
+        IT = np.where(MARGIN < 0)[0][-1]
         NSHRT = FLAG
         LNCAP = np.zeros(NLINES)
 
-- 
2.43.0


From 8ebaa1bb30ecb27e62db97d8ee7d9c16d12758ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 02/45] fix: start the simulated year with the first season's
 unit ratings

---
 reliabilityassessment/monte_carlo/narpMain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..b9222c5 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,9 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    # quartr() advances the index before it applies the ratings of a season, hence
+    # start from -1, i.e., the event at the beginning of the year selects season 0
+    IQ = -1
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From 82322f6de4338dcc6eee85f2991febc41c0f3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 03/45] fix: schedule the season changes at the weeks given in
 ZZMC

---
 reliabilityassessment/monte_carlo/narpMain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index b9222c5..a1f4219 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -5,7 +5,7 @@ import numpy as np
 from reliabilityassessment.data_processing.dataf1 import dataf1
 from reliabilityassessment.monte_carlo.contrl import contrl
 from reliabilityassessment.monte_carlo.initfl import initfl
-from reliabilityassessment.monte_carlo.initl import initl
+from reliabilityassessment.monte_carlo.initl import _initl
 from reliabilityassessment.monte_carlo.seeder import seeder
 
 
@@ -93,7 +93,8 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    # schedule the first events using the seasons specified in the input data
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = _initl(JSTEP, EVNTS, IPOINT, MFA, 0, QTR)
     # quartr() advances the index before it applies the ratings of a season, hence
     # start from -1, i.e., the event at the beginning of the year selects season 0
     IQ = -1
-- 
2.43.0


From ffbb7ef19ace06f0ad3adfa0ac0708b6bd895c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 04/45] fix: apply the planned outages of the week that begins,
 not of the one that ended

---
 reliabilityassessment/monte_carlo/week.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..50d0fde 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -38,7 +38,9 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     PLNDST[:] = 1.0
 
     # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    # JHOUR is the (0-based) hour that has just been simulated; the week which begins
+    # now contains the next one (JHOUR is -1 for the last hour of a year)
+    JWEEK = (JHOUR + 1) // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From 52111cd6660acc687487345bf3c5d46bd6d6cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 05/45] fix: keep the planned-outage weeks aligned with the
 simulated year

---
 reliabilityassessment/monte_carlo/week.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 50d0fde..0232a48 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -29,18 +29,20 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     .. note:: ATRIB, PLNDST, EVNTS are modified in place.
     """
 
-    # assigning the event attribute by shifting the clock for a week
-    ATRIB[0] = CLOCK + 168
-
-    # place new entry into the event list
-    NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
-
     PLNDST[:] = 1.0
 
     # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
     # JHOUR is the (0-based) hour that has just been simulated; the week which begins
     # now contains the next one (JHOUR is -1 for the last hour of a year)
     JWEEK = (JHOUR + 1) // 168
+
+    # assigning the event attribute by shifting the clock for a week; the last day of a
+    # year belongs to none of its 52 weeks, thus week 0 of the next year is one day away
+    ATRIB[0] = CLOCK + (24 if JWEEK > 51 else 168)
+
+    # place new entry into the event list
+    NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
+
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From 65d001e5e957ec66d5e9d4f43948118f9004dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/45] fix: a planned outage may include the last week of the
 year

---
 reliabilityassessment/data_processing/smaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..611cf17 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -89,8 +89,8 @@ def smaint(
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
-                # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                # the index of last week of a simulation year is 51 (j2 is exclusive)
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From 13a27a83dda0c23e9ac8966c5ae5b52f220cbc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 07/45] fix: read load profiles of areas whose number has
 several digits

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..a0d8ff4 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From a61ba61b0571f986061b28f4de5df1bf3b69be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 08/45] fix: rate capacity at a peak in the last season with
 that season's ratings

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..80d8250 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.sum(IDAY * 24 > QTR)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From ee71ac73f06f0c4a1a78a9dee29236de19152abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 09/45] fix: count a loss of load at the daily peak also in the
 last hour of a year

---
 reliabilityassessment/monte_carlo/hour.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 62fddd2..3fb788c 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -96,6 +96,8 @@ def hour(
     )  # original Fortran, (JHOUR-.1)/24 + 1, since 1-based
 
     JHOURT = JHOUR
+    if JHOUR == -1:  # the last hour of a year
+        JHOUR = DXX - 1
     if JSTEP == 24:  # if only daily peak stats are collected
         JHOUR = MXPLHR[JDAY]  # MXPLHR stores the pool peak hour
 
-- 
2.43.0


From 73c5e57335a98b1eece0f27bcbb046503428f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 10/45] fix: keep the drawn states between the draws when they
 are drawn once per day

---
 reliabilityassessment/monte_carlo/hour.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 3fb788c..c07ea9a 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -10,6 +10,10 @@ from reliabilityassessment.monte_carlo.pkstat import pkstat
 from reliabilityassessment.monte_carlo.sumcap import sumcap
 from reliabilityassessment.monte_carlo.transm import transm
 
+# the most recent draw of the generator and line states, which remains in effect until
+# the next one if they are drawn less often than once per hour
+LAST_DRAW = {}
+
 
 def hour(
     ATRIB,
@@ -103,11 +107,13 @@ def hour(
 
     # ......Draw generator states and sum capacities by area...............
     NOAREA = CAPOWN.shape[0]
-    if JHOUR % JFREQ == 0 or JFREQ == 1:
+    if JHOURT % JFREQ == 0 or JFREQ <= JSTEP:
         PCTAVL, AVAIL = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
         CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
         LNSTAT = lstate(ILSEED, PROBL)
         TRNSFR = findtn(JENT, INTCH, JDAY)
+        LAST_DRAW["state"] = PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR
+    PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR = LAST_DRAW["state"]
 
     # STMULT(I,1) IS FORWARD DIRECTION ADJUSTMENT
     # STMULT(I,2) IS BACKWARD DIRECTION ADJUSTMENT
-- 
2.43.0


From 343806ee63c8653d51989f70ef643b5306f7de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 11/45] fix: restore the impedance matrix after the linear
 program has been solved

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..afae266 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -302,6 +302,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 690849ac0503fbe851f670195a6f8e3b6716dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 12/45] fix: remove the base admittance of a changed line at
 the reference area

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index afae266..ab8cf75 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -103,7 +103,7 @@ def tm2(
         for bij in [BIJ, -BLP0[i]]:
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 2d82dcb2fa867f277a36f7df1bb91bdac0483ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 13/45] fix: report the load curtailment of the first
 non-reference area

---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From eae640275409422123c99360d94bba29b594d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 14/45] fix: loss sharing must not crash when it needs the
 linear program

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ab8cf75..ffc6ad6 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -234,7 +234,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From b5dbb6f3b509499225085e5913fbc2684f49b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 15/45] fix: writing the load-flow detail must not crash

---
 reliabilityassessment/monte_carlo/tm2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ffc6ad6..303f6ec 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -191,18 +191,18 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -266,15 +266,15 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
             for i in range(JXX):
-- 
2.43.0


From 17593b9596265aef285b29508c0217394a8ae19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 16/45] fix: account for the scheduled flows in the limits on
 the sum of flows of an area

---
 reliabilityassessment/monte_carlo/transm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..8a270c4 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,13 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        # what is left of the limits on the total import (3) and export (4) of an area;
+        # an area may be an end of several lines
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 1], -FLOW[:NL])
+        np.add.at(BN[:, 3], LP[:NL, 2], -FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
+        BN[:, [3, 4]] = BN[:, [3, 4]].clip(min=0.0)
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 12a961c7438e2922a9b049949d2759438ef8e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 17/45] fix: reset the annual statistics of every area and
 forecast level

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..e1ab26a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From a255774424f7de63ae75d4452d71f76148350c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 18/45] fix: accumulate the weighted pool statistics over the
 simulated years

---
 reliabilityassessment/monte_carlo/narpMain.py | 25 ++++++++++---------
 reliabilityassessment/monte_carlo/year.py     |  2 ++
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index a1f4219..1fddd4d 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -158,30 +158,31 @@ def narpMain(TEST_DIR):
     SOLTHP = np.zeros(5)
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
+    # the cumulative pool statistics are 0-d arrays as they are modified in place, too
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index e1ab26a..b0c04e4 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -716,6 +716,8 @@ def year(
                 else:
                     SUM = SGNSPP[NOERR]
 
+    SUM = float(SUM)  # the cumulative quantities are modified in place
+
     RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
     NOERR = 1
 
-- 
2.43.0


From d193730442183b98a1afd87a91de35cc68bcfa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 19/45] fix: the annual table must not crash or show stale
 means without a pool loss

---
 reliabilityassessment/monte_carlo/year.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index b0c04e4..c45d458 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -414,7 +414,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From c1f26850765d922a5f9a0cc36f0bea718cac24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 20/45] fix: the convergence test must not crash if all
 simulated years are the same

---
 reliabilityassessment/monte_carlo/cvchk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/cvchk.py b/reliabilityassessment/monte_carlo/cvchk.py
index 75cb245..9718da2 100644
--- a/reliabilityassessment/monte_carlo/cvchk.py
+++ b/reliabilityassessment/monte_carlo/cvchk.py
@@ -34,7 +34,8 @@ def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
 
     XX = CVTEST * XMEAN if CVTEST else 0.025 * XMEAN
 
-    STDERR = pow(((SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
+    # the variance may become negative due to rounding if all years are the same
+    STDERR = pow(max(0.0, (SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
 
     # how many multiples of our "COV" to the given threshold
     XKCPXX = STDERR / XX if XX else 0.0
@@ -102,7 +103,8 @@ def _cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
     else:
         XX = CVTEST * XMEAN
 
-    VAR = (SSQ / IYEAR) - (XMEAN**2)
+    # the variance may become negative due to rounding if all years are the same
+    VAR = max(0.0, (SSQ / IYEAR) - (XMEAN**2))
     STD = pow(VAR, 0.5)
 
     STDERR = STD / (IYEAR**0.5)
-- 
2.43.0


From 0816120d2e67f05fdfce96a24dcf10d136ff865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 21/45] fix: report the reserve of the pool, not of the last
 area, for the pool

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From 0628712057c5cd5283d46467e4cc0e5924f2ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 22/45] fix: do not report nan as the deviation of results that
 never vary

---
 reliabilityassessment/monte_carlo/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index ec2dec3..6a6b976 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -449,12 +449,13 @@ def report(
             "\n      %s         %8.2f  %8.2f            %s" % (XA, XLOLP, XMGNP, XS)
         )
 
+    # the variances may become negative due to rounding if all years are the same
     for IAR in range(NOAREA):
         for J in range(3):
-            SSQA[IAR, J] = (SSQA[IAR, J] / XYEAR) ** 0.5
+            SSQA[IAR, J] = (max(0.0, SSQA[IAR, J]) / XYEAR) ** 0.5
 
     for J in range(3):
-        SSQP[J] = (SSQP[J] / XYEAR) ** 0.5
+        SSQP[J] = (max(0.0, SSQP[J]) / XYEAR) ** 0.5
 
     SUSTAT[NOAREA, 3] = XLOL
     SUSTAT[NOAREA, 4] = XLOLP
-- 
2.43.0


From ae9f9bff248a9bc6416d56886113769ccd2ce53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 23/45] fix: read the firm contracts of ZZFC

---
 reliabilityassessment/data_processing/datax.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..0297f8d 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -119,15 +119,17 @@ def datax(inputB_dict):
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
         for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
-            JENT[src, dst] = i
-            INTCHR[i, :] = src, dst
+            # all the contracts between the same two areas share one pointer
+            if JENT[src, dst] == -1:
+                JENT[src, dst] = JENT.max() + 1
+                INTCHR[JENT[src, dst], :] = src, dst
             beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
+                inputB_dict["ZZFC"]["BEG DAY"][i] - 1,  # to 0-based index
                 inputB_dict["ZZFC"]["END DAY"][i],
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            INTCH[JENT[src, dst], beg_day:end_day] += inputB_dict["ZZFC"]["MW"][i]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From 9d114ff1938abfed5139fbc20ffc8e6153a0f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 24/45] fix: count the units of an area without any as none

---
 reliabilityassessment/data_processing/datax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index 0297f8d..6203d7f 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -97,7 +97,7 @@ def datax(inputB_dict):
 
     CAPCON[inputB_dict["ZZUD"]["NAT"]] = deepcopy(inputB_dict["ZZUD"]["NAR"])
     CAPOWN[inputB_dict["ZZUD"]["NAR"], inputB_dict["ZZUD"]["NAT"]] = 1
-    NOGEN = np.bincount(inputB_dict["ZZUD"]["NAR"])
+    NOGEN = np.bincount(inputB_dict["ZZUD"]["NAR"], minlength=NOAREA)
     PROBG[:, 0] = 1 - inputB_dict["ZZUD"]["HRLOAD"][[4, 5], :].sum(axis=0)
     PROBG[:, 1] = 1 - inputB_dict["ZZUD"]["HRLOAD"][5, :]
     DERATE = 1 - inputB_dict["ZZUD"]["HRLOAD"][6, :] / 100.0
-- 
2.43.0


From a7d6610d3b63dcc19d4bc388caeb8d6bba99094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 25/45] fix: keep the planned outage of a unit which is alone
 in its area

---
 reliabilityassessment/data_processing/pmsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 8c51e70..a06a934 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -858,7 +858,7 @@ def pmsc(
     f.close()
 
     ITAB = ITC
-    for i in range(NGU):
+    for i in range(1, NGU):  # entry 0 of the arranged sequence is not in use
         IND = ID1[i, 0]
         IND = NR0[IND]
         ID[IND, 3] = (
-- 
2.43.0


From d333dd38c68dd01a7685c9c930bc836a0156009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 26/45] fix: read the ownership of the jointly owned units from
 ZZOD

---
 reliabilityassessment/data_processing/readInputB.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..6a3599a 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -471,9 +471,15 @@ def read_card_ZZOD(filepath):
     data["NAT"] = df_ZZOD["UNIT NAME"].to_numpy()
 
     """
-    Percentage ownership by each area
-    """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    Percentage ownership by each area, i.e., the percentages of all the areas in one
+    (quoted) field, in the sequence of the areas
+    """
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(s).strip().split(",")))
+            for s in df_ZZOD["PERCENT OWNED BY AREA"]
+        ]
+    )
 
     return data
 
-- 
2.43.0


From 04cac65b7d49c4875a248b9fc91466442c3cc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 27/45] fix: rate capacity at a peak on the first day of a
 season with that season's ratings

---
 reliabilityassessment/data_processing/resca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 80d8250..5d2c627 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.sum(IDAY * 24 > QTR)
+        IPER = np.sum((IDAY + 1) * 24 > QTR)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
@@ -81,7 +81,7 @@ def _resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IHR = IDAY * 24
+        IHR = (IDAY + 1) * 24
         IPER = 0
 
         if IHR > QTR[0]:
-- 
2.43.0


From 671ad4ba3e12c669f98bfd74a806de3489a09323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 28/45] fix: keep artificial variables at zero in the second
 phase of the linear program

---
 reliabilityassessment/monte_carlo/linp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index dc0e9b9..9230958 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -116,6 +116,11 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if IPH != 2 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                     IPIV = i
 
+            if IPH == 2:
+                # an artificial variable still in the basis (at zero) must not grow
+                for i in np.where((IBAS[:M] >= N1) & (P[:M] < -1e-07))[0]:
+                    IPIV = i
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
-- 
2.43.0


From 56f4922f361ca4cadf8ff519552f28bee6b4e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 29/45] fix: a unit or line that is certain to be in a state is
 drawn in it

---
 reliabilityassessment/monte_carlo/gstate.py | 3 ++-
 reliabilityassessment/monte_carlo/lstate.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/gstate.py b/reliabilityassessment/monte_carlo/gstate.py
index 7e61224..ac9f766 100644
--- a/reliabilityassessment/monte_carlo/gstate.py
+++ b/reliabilityassessment/monte_carlo/gstate.py
@@ -36,7 +36,8 @@ def gstate(IGSEED, PROBG, RATING, DERATE, PLNDST):
             IGSEED[i] += 1
         YFL = float(IGSEED[i])
         YFL *= 0.4656613e-9
-        RANDGi = YFL
+        # the rounded factor takes the last values of the sequence to more than one
+        RANDGi = min(YFL, 1 - 2**-32)
 
         # Determine the State and Available Capacity for Each Generator.
         if RANDGi < PROBG[i, 0]:
diff --git a/reliabilityassessment/monte_carlo/lstate.py b/reliabilityassessment/monte_carlo/lstate.py
index a8f7726..61c5473 100644
--- a/reliabilityassessment/monte_carlo/lstate.py
+++ b/reliabilityassessment/monte_carlo/lstate.py
@@ -29,7 +29,8 @@ def lstate(ILSEED, PROBL):
             ILSEED[i] += 1
         YFL = float(ILSEED[i])
         YFL *= 0.4656613e-9
-        RANDLi = YFL
+        # the rounded factor takes the last values of the sequence to more than one
+        RANDLi = min(YFL, 1 - 2**-32)
 
         # Determine the State of each line.
         if RANDLi <= PROBL[0, i]:
-- 
2.43.0


From ba2705d584bdc1075e5c43e4fcbc34897b6aab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 30/45] fix: a unit without capacity must not distort the
 capacity outage table

---
 reliabilityassessment/data_processing/gsm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reliabilityassessment/data_processing/gsm.py b/reliabilityassessment/data_processing/gsm.py
index f510de8..7c23d38 100644
--- a/reliabilityassessment/data_processing/gsm.py
+++ b/reliabilityassessment/data_processing/gsm.py
@@ -22,6 +22,9 @@ def gsm(N, KT, KP, P1, P2, P3, PA, KA):
     .. note:: KA and PA are modified in-place
     .. todo:: Check the physical meaning of input parameter N and update doc strings
     """
+    if KT == 0:  # no outage of a unit without capacity changes the table
+        return N
+
     INGS = 5000
     INGS1 = INGS - 50
 
@@ -85,6 +88,9 @@ def _gsm(N, KT, KP, P1, P2, P3, PA, KA):
     .. note:: KA and PA are modified in-place
     .. todo:: Check the physical meaning of input parameter N and update doc strings
     """
+    if KT == 0:  # no outage of a unit without capacity changes the table
+        return N
+
     INGS = 5000
     INGS1 = INGS - 50
 
-- 
2.43.0


From 5d7b098a890fb13f0ceab3f298d7dae7f7b09780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 31/45] fix: arrange the data entries in the sequence of their
 serial numbers

---
 .../data_processing/readInputB.py             | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 6a3599a..ba7972d 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -4,6 +4,16 @@ import numpy as np
 import pandas as pd
 
 
+def read_entries(filepath):
+    """
+    Read the entries of a data card in the sequence of their serial numbers
+
+    :param str filepath: path of the csv file
+    :return: (*pandas.DataFrame*) -- the entries, sorted by the serial number
+    """
+    return pd.read_csv(filepath).sort_values("SN", kind="stable")
+
+
 def read_card_ZZTC(filepath):
     """
     ZZTC: title card
@@ -178,7 +188,7 @@ def read_card_ZZLD(filepath):
     :return: (*dict*) -- a dictionary contains info from the raw dataframe with
         designated keys.
     """
-    df_ZZLD = pd.read_csv(os.path.join(filepath, "ZZLD.csv"))
+    df_ZZLD = read_entries(os.path.join(filepath, "ZZLD.csv"))
     data = dict()
 
     RATES = np.zeros((len(df_ZZLD), 3))
@@ -256,7 +266,7 @@ def read_card_ZZUD(filepath):
         designated keys.
     """
 
-    df_ZZUD = pd.read_csv(os.path.join(filepath, "ZZUD.csv"))
+    df_ZZUD = read_entries(os.path.join(filepath, "ZZUD.csv"))
     data = dict()
 
     # Note: the original Fortran code set the HRLOAD array as INT type;
@@ -355,7 +365,7 @@ def read_card_ZZTD(filepath):
         designated keys.
     """
 
-    df_ZZTD = pd.read_csv(os.path.join(filepath, "ZZTD.csv"))
+    df_ZZTD = read_entries(os.path.join(filepath, "ZZTD.csv"))
     data = dict()
 
     ADM = np.zeros((len(df_ZZTD), 6))
@@ -412,7 +422,7 @@ def read_card_ZZFC(filepath):
     Default values (zero , empty , None, etc.) will be given here
     """
 
-    df_ZZFC = pd.read_csv(os.path.join(filepath, "ZZFC.csv"))
+    df_ZZFC = read_entries(os.path.join(filepath, "ZZFC.csv"))
     data = dict()
 
     """
@@ -457,7 +467,7 @@ def read_card_ZZOD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZOD = pd.read_csv(os.path.join(filepath, "ZZOD.csv"))
+    df_ZZOD = read_entries(os.path.join(filepath, "ZZOD.csv"))
     data = dict()
 
     """
@@ -500,7 +510,7 @@ def read_card_ZZDD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZDD = pd.read_csv(os.path.join(filepath, "ZZDD.csv"))
+    df_ZZDD = read_entries(os.path.join(filepath, "ZZDD.csv"))
     data = dict()
 
     """
-- 
2.43.0


From 0fc1e2b0ff26506af1ade06a83772c36d8c6286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 32/45] fix: run without the input files that are not required

ZZFC, ZZOD and ZZDD are documented as optional, but without these files
the reader stopped with an exception.
---
 .../data_processing/readInputB.py             | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index ba7972d..dd2528f 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -4,13 +4,17 @@ import numpy as np
 import pandas as pd
 
 
-def read_entries(filepath):
+def read_entries(filepath, optional=()):
     """
     Read the entries of a data card in the sequence of their serial numbers
 
     :param str filepath: path of the csv file
+    :param iterable optional: the columns of a data card that is not required; without
+        its file, there are no entries.
     :return: (*pandas.DataFrame*) -- the entries, sorted by the serial number
     """
+    if optional and not os.path.exists(filepath):
+        return pd.DataFrame(columns=["SN", *optional])
     return pd.read_csv(filepath).sort_values("SN", kind="stable")
 
 
@@ -422,7 +426,10 @@ def read_card_ZZFC(filepath):
     Default values (zero , empty , None, etc.) will be given here
     """
 
-    df_ZZFC = read_entries(os.path.join(filepath, "ZZFC.csv"))
+    df_ZZFC = read_entries(
+        os.path.join(filepath, "ZZFC.csv"),
+        optional=["FROM AREA", "TO AREA", "BEG DAY", "END DAY", "MW"],
+    )
     data = dict()
 
     """
@@ -467,7 +474,10 @@ def read_card_ZZOD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZOD = read_entries(os.path.join(filepath, "ZZOD.csv"))
+    df_ZZOD = read_entries(
+        os.path.join(filepath, "ZZOD.csv"),
+        optional=["UNIT NAME", "PERCENT OWNED BY AREA"],
+    )
     data = dict()
 
     """
@@ -510,7 +520,18 @@ def read_card_ZZDD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZDD = read_entries(os.path.join(filepath, "ZZDD.csv"))
+    df_ZZDD = read_entries(
+        os.path.join(filepath, "ZZDD.csv"),
+        optional=[
+            "LINE NUMBER",
+            "UNIT1",
+            "UNIT2",
+            "UNIT3",
+            "UNIT4",
+            "FORWARD",
+            "BACKWARD",
+        ],
+    )
     data = dict()
 
     """
-- 
2.43.0


From 7144b18ebaaf31ed118966a4f6e42508a4cd7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 33/45] fix: lines may have any line number

LINENO is an index into the arrays of the lines; numbers other than 1..n
led to a wrong line or an IndexError when a line limit was exceeded.
---
 reliabilityassessment/data_processing/datax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index 6203d7f..e6a5b65 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -156,7 +156,8 @@ def datax(inputB_dict):
     LP[:, 0] = deepcopy(inputB_dict["ZZTD"]["LineID"])  # idx (int) for the line
     LP[:, 1] = deepcopy(inputB_dict["ZZTD"]["NAR"])  # idx (int) for 'from area'
     LP[:, 2] = deepcopy(inputB_dict["ZZTD"]["NAE"])
-    LINENO[LP[:, 1], LP[:, 2]] = LP[:, 0]  # idx (int) for 'to area'
+    # the position of the line in these arrays, which is not always its given number
+    LINENO[LP[:, 1], LP[:, 2]] = range(NLINES)
 
     # Convert discrete probability to cumulative probability
     # PROBL(k,l) cumulative probability that line l is in state k, k=0,...5
-- 
2.43.0


From bcb8556eab19f7f09c3cb7fdfe0db1cf0e3a8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 34/45] fix: print the planned outages in the maintenance
 schedule

The units of an area were arranged from the second entry on, leaving out the
last one, so that no predetermined outage was ever taken into account in the
printed schedule and the weekly load and capacity on maintenance; weeks are
0-based and the quarters are printed in sequence.
---
 reliabilityassessment/data_processing/pmsc.py | 64 +++++++------------
 1 file changed, 23 insertions(+), 41 deletions(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index a06a934..2b0318c 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -78,25 +78,25 @@ def pmsc(
     NUNITS = ID.shape[0]
 
     # Below are all local arrays created for the conveneice in intermedaite computation
-    INDEX = np.zeros((INUO, 2))  # maybe use "-1" for intialization
+    INDEX = -np.ones((INUO, 2), dtype=int)  # starting weeks (0-based), -1: none
     INDEX1 = np.zeros(INUO)  # maybe use "-1" for intialization
     P = np.ones(INUO)
     NR0 = np.zeros(NUNITS, dtype=int)
     ID1 = np.zeros((1 + NUNITS, 8), dtype=int)
     CAPLOS = np.zeros(NUNITS)
     RD = np.zeros((NUNITS, 3))
-    DURLOS = np.zeros((NUNITS, 2))
+    DURLOS = np.zeros((NUNITS, 2), dtype=int)
     LOCREW = np.zeros(NUNITS)
     IDT = np.zeros((NUNITS, 8))
     RDT = np.zeros((NUNITS, 3))
     CAPLO = np.zeros(NUNITS)
-    DURLO = np.zeros((NUNITS, 2))
+    DURLO = np.zeros((NUNITS, 2), dtype=int)
     LOCRE = np.zeros(NUNITS)
-    WEEKS = [""] * 52
     A = "AA"
     B = ".."
     AB = "PP"
-    CHECK = np.zeros((INPO, 52))
+    WEEKS = np.full(52, B)
+    CHECK = np.zeros((max(INPO, NUNITS), 52))
     LOAD = np.zeros(52)
     EFLOAD = np.zeros(52)
     MWTOT = np.zeros(NUNITS)
@@ -148,10 +148,10 @@ def pmsc(
     CAP2 = CAP / 5
     G = PKLOAD[IA]
     M = NGU  # M is the total number of generating units considerred in this function
-    i1 = 0
+    i1 = -1
     # arrange the sequence of units such that for a given plant the units are
     # arranged in the descending order of capacity*planned maintenance duration
-    for i in range(N):
+    for i in range(N + 1):
         while True:
             IC = 0  # (possibly) a flag varaiable
             CMAX = -5.0
@@ -233,13 +233,13 @@ def pmsc(
     NPS = -1  # 0 in Fortran
     for i in range(M):
         if ID1[i, 7] == 0:
-            break
+            continue
         NPS += 1
         NPSU[NPS] = ID1[i, 0]
     NPS += 1  # restoring the meainig of certain length
 
     i = -1  # 0 in Fortran
-    LTEM = 0
+    LTEM = -1
     for j in range(M):  # goto flag #52
         R = 1 - P[j] + P[j] * np.exp(CAPLOS[j] / XM)
         SCHLOS[j] = CAPLOS[j] - XM * np.log(R)
@@ -269,33 +269,16 @@ def pmsc(
                 MWTOT[i] += MWEEK[j]
                 continue
 
-            if ID1[j, 3] != -1 or ID1[j, 4] != 0:  # ID1[j, 3] != 0 in Fotran
-                M1 = (
-                    ID1[j, 3] // 168 + 1
-                )  # maybe remvoe "+1" here; ID1[j, 3] / 168 + 1 in Fortran
-                M2 = M1 + DURLOS[j, 0] - 1
-                IPN = i
-                M2 = min(M2, 51)  # maybe 52; need to check
-                if M2 != -1:  # originally in Fortran "if M2 != 0"
-                    CHECK[IPN, M1 : M2 + 1] = LOCREW[j]
-                    EFLOAD[M1 : M2 + 1] += SCHLOS[j]
-                    LOAD[M1 : M2 + 1] += CAPLOS[j]
-                    INDEX[j, 0] = M1
-                    INDEX1[j] = 0  # originally in Fortran "1"
-            else:
-                INDEX1[j] = 0  # originally in Fortran "1"
-
-            if ID1[j, 5] != -1 or ID1[j, 6] != 0:
-                M3 = (
-                    ID1[j, 5] // 168 + 1
-                )  # maybe remvoe "+1" here; ID1[j, 5] / 168 + 1 in Fortran
-                M4 = M3 + DURLOS[j, 1] - 1
-                M4 = min(M4, 51)  # maybe 52; need to check
-                if M4 != -1:  # originally in Fortran "if M4 != 0"
-                    CHECK[IPN, M3 : M4 + 1] = LOCREW[j]
-                    EFLOAD[M3 : M4 + 1] += SCHLOS[j]
-                    LOAD[M3 : M4 + 1] += CAPLOS[j]
-                    INDEX[j, 1] = M3
+            INDEX1[j] = 1
+            for ci in [0, 1]:
+                M1 = ID1[j, 3 + 2 * ci] // 168 + 1  # starting week (0-based)
+                if M1 < 0 or DURLOS[j, ci] == 0:
+                    continue
+                M2 = min(M1 + DURLOS[j, ci] - 1, 51)
+                CHECK[i, M1 : M2 + 1] = LOCREW[j]
+                EFLOAD[M1 : M2 + 1] += SCHLOS[j]
+                LOAD[M1 : M2 + 1] += CAPLOS[j]
+                INDEX[j, ci] = M1
             continue
 
         MWEEK[j] = SCHLOS[j] * (DURLOS[j, 0] + DURLOS[j, 1])
@@ -688,14 +671,13 @@ def pmsc(
     # Print output of the scheduled generators of the plant
     NTI = 0
     NMAX = 40
-    WEEKS = [" "] * 52
     for i in range(M):
         JB = i
-        if INDEX[JB, 0] == 0 and INDEX[JB, 1] == 0:
+        if INDEX[JB, 0] == -1 and INDEX[JB, 1] == -1:
             continue
 
         for ci in [0, 1]:
-            if INDEX[JB, ci] != 0:
+            if INDEX[JB, ci] != -1:
                 MC1 = INDEX[JB, ci]
                 MC2 = MC1 + DURLOS[JB, ci] - 1
                 MC2 = min(MC2, 51)
@@ -709,7 +691,7 @@ def pmsc(
 
             for KI in range(4):
                 for KJ in range(13):
-                    f.write("%s " % (WEEKS[(KI - 1) * 13 + KJ]))
+                    f.write("%s " % (WEEKS[KI * 13 + KJ]))
                 f.write("|")
 
         WEEKS[:52] = B
@@ -858,7 +840,7 @@ def pmsc(
     f.close()
 
     ITAB = ITC
-    for i in range(1, NGU):  # entry 0 of the arranged sequence is not in use
+    for i in range(NGU):
         IND = ID1[i, 0]
         IND = NR0[IND]
         ID[IND, 3] = (
-- 
2.43.0


From 0adc2a8b644e72bf997476f3027f05a9dc098b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 35/45] fix: schedule the maintenance that is left to the
 program

With one unit per plant no unit was ever scheduled; weeks and plants are
0-based, the schedule stays in the outage window of the area, and a unit for
which no period is feasible is reported as such.
---
 reliabilityassessment/data_processing/pmsc.py | 53 +++++++++----------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 2b0318c..27148dc 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -96,7 +96,7 @@ def pmsc(
     B = ".."
     AB = "PP"
     WEEKS = np.full(52, B)
-    CHECK = np.zeros((max(INPO, NUNITS), 52))
+    CHECK = -np.ones((max(INPO, NUNITS), 52))  # plant on maintenance, -1: none
     LOAD = np.zeros(52)
     EFLOAD = np.zeros(52)
     MWTOT = np.zeros(NUNITS)
@@ -215,7 +215,6 @@ def pmsc(
     # All generating units in a particular location-crew is arranged
     # in sequence based on the largest schedule maintenance x duration
     WEEKS[:52] = B
-    CHECK[:INPO, :52] = 0.0
     LOAD[:52] = WPEAK[IA, :52].copy()
     EFLOAD[:52] = LOAD[:52].copy()
 
@@ -243,13 +242,13 @@ def pmsc(
     for j in range(M):  # goto flag #52
         R = 1 - P[j] + P[j] * np.exp(CAPLOS[j] / XM)
         SCHLOS[j] = CAPLOS[j] - XM * np.log(R)
-        if SCHLOS[j] <= 0:
+        if SCHLOS[j] <= 1e-6:  # zero apart from rounding
             SCHLOS[j] = CAPLOS[j]
         if LTEM != LOCREW[j]:
             i += 1
             LTEM = LOCREW[j]
-            MWTOT[j] = 0
-            MWI[j] = LOCREW[j]
+            MWTOT[i] = 0
+            MWI[i] = LOCREW[j]
 
         if NPS > 0:  # in Fortran " NPS != 0 "
             gotoflag11 = False
@@ -393,11 +392,11 @@ def pmsc(
 
     # schedule first the plant with the largest total schedule MW loss x duration.
     # Find the largest MWTOT(i)
-    i = N
-    for LM in range(N):  # 89
+    i = 0
+    for LM in range(M):  # 89
         MAX1 = 0
 
-        for K in range(N):
+        for K in range(M):
             if MAX1 >= MWTOT[K]:
                 continue
             MAX1 = MWTOT[K]
@@ -430,7 +429,7 @@ def pmsc(
         while gotoFlag18:
             gotoFlag18 = False
 
-            for JA in range(N1, N2):  # flag 30 ; maybe N2 + 1
+            for JA in range(N1, N2 + 1):  # flag 30
                 j = JA
                 J4 = JA
 
@@ -442,7 +441,7 @@ def pmsc(
                 gotoFlag191 = True
                 while gotoFlag191:  # flag 191
                     gotoFlag191 = False
-                    MT = 0
+                    MT = -1
                     IMT = 0
                     I5 = 2
                     if ID1[j, 4] > ID1[j, 6]:
@@ -459,9 +458,9 @@ def pmsc(
 
                     if I5 != 0:
                         if I5 != 2:
-                            MAXRAN[IA] = INHBT1[IA]
+                            MAXRAN[IA] = min(MAXR, INHBT1[IA])
                         else:
-                            MINRAN[IA] = INHBT2[IA]
+                            MINRAN[IA] = max(MINR, INHBT2[IA])
 
                     while True:  # 19
                         I1 = MINRAN[IA]
@@ -469,10 +468,9 @@ def pmsc(
                         IM = DURL - 1
                         IT = MAXRAN[IA] - IM
                         IX = 53 - DURL - 1  # originally in Fortran "53-DURL"
-                        if I1 <= 0:
-                            I1 = 1
+                        I1 = max(I1, 0)
                         IX = min(IX, IT)
-                        ITE = 10**6
+                        ITE = np.inf
                         IC = 0
 
                         for J1 in range(I1, IX + 1):
@@ -503,7 +501,7 @@ def pmsc(
                         MAXRAN[IA] = MAXR
                         MINRAN[IA] = MINR
 
-                        if I5 != 0:
+                        if I5 != 0 and IC != 0:
                             # I6=I5 # I6 never used in original Fortran
                             IC = 0
                             MT = M1
@@ -512,9 +510,9 @@ def pmsc(
                             if DURLOS[j, 1] <= DURL:
                                 DURL = DURLOS[j, 1]
                             if I5 != 2:
-                                MINRAN[IA] = INHBT2[IA]
+                                MINRAN[IA] = max(MINR, INHBT2[IA])
                             else:
-                                MAXRAN[IA] = INHBT1[IA]
+                                MAXRAN[IA] = min(MAXR, INHBT1[IA])
                             I5 = 0
                             continue  # GO TO 19
 
@@ -554,8 +552,7 @@ def pmsc(
                                     )
 
                                     MWEEK[JA] = 0
-                                    INDEX[j, 0] = 0
-                                    INDEX[j, 1] = 0
+                                    INDEX[j, :2] = -1
 
                                     gotoFlag18 = True  # GO TO 18
                                     break
@@ -565,20 +562,20 @@ def pmsc(
                                 if MWEEK[J4] == 0:
                                     continue
 
-                                if INDEX[J4, 0] == 0 and INDEX[J4, 1] == 0:
+                                if INDEX[J4, 0] == -1 and INDEX[J4, 1] == -1:
                                     continue
                                 else:
                                     break
 
                                 for ci in [0, 1]:
-                                    if INDEX[J4, ci] != 0:  # maybe -1
+                                    if INDEX[J4, ci] != -1:
                                         NC1 = INDEX[J4, ci]
                                         NC2 = NC1 + DURLOS[J4, ci] - 1
-                                        CHECK[i, NC1 : NC2 + 1] = 0
+                                        CHECK[i, NC1 : NC2 + 1] = -1
                                         LOAD[NC1 : NC2 + 1] -= CAPLOS[J4]
                                         EFLOAD[NC1 : NC2 + 1] -= SCHLOS[J4]
                                         WEEKS[NC1 : NC2 + 1] = B
-                                        INDEX[J4, ci] = 0
+                                        INDEX[J4, ci] = -1
 
                                 gotoFlag191 = True
                                 break
@@ -605,20 +602,20 @@ def pmsc(
                             IM4 = IMT
 
                         INDEX[j, 0] = M3
-                        ID1[j, 3] = (M3 - 1) * 168
+                        ID1[j, 3] = M3 * 168 - 168
                         INDEX1[j] = 0
                         M2 = M3 + IM3
 
-                        if M2 >= M3 and M3 != 0:
+                        if M2 >= M3 and M3 != -1:
                             CHECK[i, M3 : M2 + 1] = LOCREW[j]
                             EFLOAD[M3 : M2 + 1] += SCHLOS[j]
                             LOAD[M3 : M2 + 1] += CAPLOS[j]
 
                         INDEX[j, 1] = M4
-                        ID1[j, 5] = (M4 - 1) * 168
+                        ID1[j, 5] = M4 * 168 - 168
                         M2 = M4 + IM4
 
-                        if M2 >= M4 and M4 != 0:
+                        if M2 >= M4 and M4 != -1:
                             CHECK[i, M4 : M2 + 1] = LOCREW[j]
                             EFLOAD[M4 : M2 + 1] += SCHLOS[j]
                             LOAD[M4 : M2 + 1] += CAPLOS[j]
-- 
2.43.0


From 7f5bc8d54d4dd4d2418b19b753b5c615f681d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 36/45] fix: do not take out two units of one plant at the same
 time

The plant of a unit is given by the first four letters of its name, but every
unit was taken as a plant of its own. Scheduling the second unit of a plant
failed, or took out units of the plant together, or moved predetermined
outages of the plant; a unit that could not be scheduled doubled the capacity
on maintenance of the others.
---
 .../data_processing/input_processing.py       |   4 +
 reliabilityassessment/data_processing/pmsc.py | 341 ++++++------------
 2 files changed, 105 insertions(+), 240 deletions(-)

diff --git a/reliabilityassessment/data_processing/input_processing.py b/reliabilityassessment/data_processing/input_processing.py
index 395c90a..f3f384a 100644
--- a/reliabilityassessment/data_processing/input_processing.py
+++ b/reliabilityassessment/data_processing/input_processing.py
@@ -72,6 +72,10 @@ def input_processing(inputB_dict_nameToInt, filePathToLEEI, NAMU, NUMP):
         INTVT,
     ) = datax(inputB_dict_nameToInt)
 
+    # Units whose names begin with the same four letters belong to one plant
+    plants = list(dict.fromkeys(NAMU))
+    ID[:, 1] = [plants.index(name) for name in NAMU]
+
     RATES = deepcopy(inputB_dict_nameToInt["ZZUD"]["HRLOAD"][0:4, :].T)
 
     # Read the hourly load data from the file 'LEEI'
diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 27148dc..ddbd29f 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -407,262 +407,123 @@ def pmsc(
         MWEEK[:M] = 0
 
         for K2 in np.where(ID1[:M, 1] == K1)[0]:
-            MWEEK[K2] = SCHLOS[K2] * (DURLOS[K2, 0] + DURLOS[K2, 1])
+            if ID1[K2, 7] == 0:  # predetermined outages stay as they are
+                MWEEK[K2] = SCHLOS[K2] * (DURLOS[K2, 0] + DURLOS[K2, 1])
 
         # Clear the MWTOT(i), since no longer required
         if MWTOT[i] == 0:
             continue
 
         MWTOT[i] = 0
-        # Set the index for MWEEK(J), J=N1,N2
-
-        N1 = 0  # in Fortran, 1; need to check
-        N2 = -1  # in Fortran,0; need to check
-        for j in range(M):
-            if MWEEK[j] != 0:
-                N2 = j
-            if MWEEK[j] == 0 and N2 == -1:
-                N1 += 1
 
         # Schedule all generators within the same plant
-        gotoFlag18 = True
-        while gotoFlag18:
-            gotoFlag18 = False
+        for j in np.where(MWEEK[:M] > 0)[0]:  # flag 30
+            # Set index for scheduling within the flexible maintenance period,
+            # between min. and max. range
+            MT = -1
+            IMT = 0
+            I5 = 2
+            if ID1[j, 4] > ID1[j, 6]:
+                I5 = 1
+            if ID1[j, 4] == 0 or ID1[j, 6] == 0:
+                I5 = 0
+
+            # the longer outage is placed first
+            DURL = max(DURLOS[j, 0], DURLOS[j, 1])
+
+            MAXR = MAXRAN[IA]
+            MINR = MINRAN[IA]
+
+            if I5 == 1:
+                MAXR = min(MAXR, INHBT1[IA])
+            elif I5 == 2:
+                MINR = max(MINR, INHBT2[IA])
+
+            while True:  # 19
+                IM = DURL - 1
+                I1 = max(int(MINR), 0)
+                IX = min(52 - DURL, int(MAXR) - IM)
+                ITE = np.inf
+                IC = 0
+
+                for J1 in range(I1, IX + 1):
+                    IS = J1 + IM
+                    if J1 >= INHBT1[IA] - IM and IS <= INHBT2[IA] + IM:
+                        continue
+                    # another unit of the plant is out
+                    if np.any(CHECK[i, J1 : IS + 1] == LOCREW[j]):
+                        continue
 
-            for JA in range(N1, N2 + 1):  # flag 30
-                j = JA
-                J4 = JA
+                    IR = SCHLOS[j]
+                    if np.any(IR + EFLOAD[J1 : IS + 1] >= G):
+                        continue
 
-                # Set index for scheduling within the flexible maintenance period,
-                # between min. and max. range
-                if MWEEK[JA] == 0:
-                    continue
+                    IC = 1
+                    IR += sum(EFLOAD[J1 : IS + 1])
 
-                gotoFlag191 = True
-                while gotoFlag191:  # flag 191
-                    gotoFlag191 = False
-                    MT = -1
-                    IMT = 0
-                    I5 = 2
-                    if ID1[j, 4] > ID1[j, 6]:
-                        I5 = 1
-                    if ID1[j, 4] == 0 or ID1[j, 6] == 0:
-                        I5 = 0
-
-                    DURL = DURLOS[j, 0]
-                    if DURLOS[j, 1] > DURL:
-                        DURL = DURLOS[j, 1]
-
-                    MAXR = MAXRAN[IA]
-                    MINR = MINRAN[IA]
-
-                    if I5 != 0:
-                        if I5 != 2:
-                            MAXRAN[IA] = min(MAXR, INHBT1[IA])
-                        else:
-                            MINRAN[IA] = max(MINR, INHBT2[IA])
-
-                    while True:  # 19
-                        I1 = MINRAN[IA]
-
-                        IM = DURL - 1
-                        IT = MAXRAN[IA] - IM
-                        IX = 53 - DURL - 1  # originally in Fortran "53-DURL"
-                        I1 = max(I1, 0)
-                        IX = min(IX, IT)
-                        ITE = np.inf
-                        IC = 0
-
-                        for J1 in range(I1, IX + 1):
-                            IR = SCHLOS[j]
-                            IS = J1 + IM
-                            if J1 >= INHBT1[IA] - IM and IS <= INHBT2[IA] + IM:
-                                continue
-                            if LOCREW[j] == CHECK[i, J1] or LOCREW[j] == CHECK[i, IS]:
-                                continue
-
-                            breakFlag = False
-                            for L in range(J1, IS + 1):
-                                if IR + EFLOAD[L] >= G:
-                                    breakFlag = True
-                                    break
-                            if breakFlag:
-                                continue
-
-                            if IS + 1 > J1:
-                                IC = 1
-                            IR += sum(EFLOAD[J1 : IS + 1])
-
-                            if ITE < IR:
-                                continue
-                            ITE = IR
-                            M1 = J1
-
-                        MAXRAN[IA] = MAXR
-                        MINRAN[IA] = MINR
-
-                        if I5 != 0 and IC != 0:
-                            # I6=I5 # I6 never used in original Fortran
-                            IC = 0
-                            MT = M1
-                            IMT = IM
-                            DURL = DURLOS[j, 0]
-                            if DURLOS[j, 1] <= DURL:
-                                DURL = DURLOS[j, 1]
-                            if I5 != 2:
-                                MINRAN[IA] = max(MINR, INHBT2[IA])
-                            else:
-                                MAXRAN[IA] = min(MAXR, INHBT1[IA])
-                            I5 = 0
-                            continue  # GO TO 19
-
-                        # IC is the flag to check whether the schedule is feasible.
-                        if IC == 0:
-                            while True:
-                                J4 -= 1
-                                if J4 <= -1:  # <=0 in Fotran
-                                    IU0 = ID1[JA, 0]
-                                    IU0 = NR0[IU0]
-                                    IBG1N = (
-                                        ID1[JA, 3] // 168 + 1
-                                    )  # maybe remvoe "+1" here; ID1[JA, 3] / 168 + 1 in Fortran
-                                    IBG2N = (
-                                        ID1[JA, 5] // 168 + 1
-                                    )  # maybe remvoe "+1" here; ID1[JA, 5] / 168 + 1 in Fortran
-                                    ID1R = (
-                                        ID1[JA, 4] // 168
-                                    )  # ID1[JA, 4] / 168 in Fortran
-                                    ID2R = (
-                                        ID1[JA, 6] // 168
-                                    )  # ID1[JA, 6] / 168 in Fortran
-
-                                    f.write(
-                                        "          SCHEDULE FOR  GENERATOR ** %s %s **  IS NOT FEASIBLE"
-                                        "\n          'THIS UNIT IS SCHEDULED WITH PRESPECIFIED PARAMETERS AS FOLLOWS:\n"
-                                        "          BEGINING FIRST OUTAGE = %2d   DURATION = %2d\n"
-                                        "          BEGINING SECOND OUTAGE = %2d   DURATION = %2d\n"
-                                        % (
-                                            NAMU[IU0],
-                                            NUMP[IU0],
-                                            IBG1N,
-                                            ID1R,
-                                            IBG2N,
-                                            ID2R,
-                                        )
-                                    )
-
-                                    MWEEK[JA] = 0
-                                    INDEX[j, :2] = -1
-
-                                    gotoFlag18 = True  # GO TO 18
-                                    break
-
-                                # Cancel the previous scheduled generator, try to schedule the
-                                # Non-feasible one. Interchange order of the scheduling.
-                                if MWEEK[J4] == 0:
-                                    continue
-
-                                if INDEX[J4, 0] == -1 and INDEX[J4, 1] == -1:
-                                    continue
-                                else:
-                                    break
-
-                                for ci in [0, 1]:
-                                    if INDEX[J4, ci] != -1:
-                                        NC1 = INDEX[J4, ci]
-                                        NC2 = NC1 + DURLOS[J4, ci] - 1
-                                        CHECK[i, NC1 : NC2 + 1] = -1
-                                        LOAD[NC1 : NC2 + 1] -= CAPLOS[J4]
-                                        EFLOAD[NC1 : NC2 + 1] -= SCHLOS[J4]
-                                        WEEKS[NC1 : NC2 + 1] = B
-                                        INDEX[J4, ci] = -1
-
-                                gotoFlag191 = True
-                                break
-
-                        if gotoFlag18:
-                            break
-
-                        if gotoFlag191:
-                            break
-
-                        # INDEX(j) is the starting scheduled maintenance week for generator j
-                        IMM = IM + 1
-                        IMM = IMM * 168
-
-                        if IMM != ID1[j, 4]:
-                            M3 = MT
-                            IM3 = IMT
-                            M4 = M1
-                            IM4 = IM
-                        else:
-                            M3 = M1
-                            IM3 = IM
-                            M4 = MT
-                            IM4 = IMT
-
-                        INDEX[j, 0] = M3
-                        ID1[j, 3] = M3 * 168 - 168
-                        INDEX1[j] = 0
-                        M2 = M3 + IM3
-
-                        if M2 >= M3 and M3 != -1:
-                            CHECK[i, M3 : M2 + 1] = LOCREW[j]
-                            EFLOAD[M3 : M2 + 1] += SCHLOS[j]
-                            LOAD[M3 : M2 + 1] += CAPLOS[j]
-
-                        INDEX[j, 1] = M4
-                        ID1[j, 5] = M4 * 168 - 168
-                        M2 = M4 + IM4
-
-                        if M2 >= M4 and M4 != -1:
-                            CHECK[i, M4 : M2 + 1] = LOCREW[j]
-                            EFLOAD[M4 : M2 + 1] += SCHLOS[j]
-                            LOAD[M4 : M2 + 1] += CAPLOS[j]
-
-                        while True:
-                            J4 += 1
-                            if J4 > JA:
-                                gotoFlag30 = True
-                                break  # GO TO 30
-                            j -= 1
-                            if MWEEK[j] == 0:
-                                continue
-
-                        if gotoFlag30:
-                            break
-
-                        while True:
-                            J4 += 1
-                            if J4 > JA:
-                                gotoFlag30 = True
-                                break  # GO TO 30
-                            j -= 1
-                            if MWEEK[j] != 0:
-                                break
-
-                        if gotoFlag30:
-                            break
-
-                        # end of while-loop 19
-
-                    if gotoFlag18:
-                        break
-
-                    if gotoFlag191:
+                    if ITE < IR:
                         continue
+                    ITE = IR
+                    M1 = J1
 
-                    # end of while-loop 191
-
-                if gotoFlag18:
+                if I5 == 0 or IC == 0:
                     break
 
-                if gotoFlag30:
+                # now the other outage, on the other side of the forbidden period
+                MT = M1
+                IMT = IM
+                DURL = min(DURLOS[j, 0], DURLOS[j, 1])
+                MAXR = MAXRAN[IA]
+                MINR = MINRAN[IA]
+                if I5 == 1:
+                    MINR = max(MINR, INHBT2[IA])
+                else:
+                    MAXR = min(MAXR, INHBT1[IA])
+                I5 = 0
+                # end of while-loop 19
+
+            # IC is the flag to check whether the schedule is feasible.
+            if IC == 0:
+                IU0 = NR0[ID1[j, 0]]
+                M3 = ID1[j, 3] // 168 + 1
+                M4 = ID1[j, 5] // 168 + 1
+
+                f.write(
+                    "\n          SCHEDULE FOR  GENERATOR ** %s %s **  IS NOT FEASIBLE"
+                    "\n          THIS UNIT IS SCHEDULED WITH PRESPECIFIED PARAMETERS AS FOLLOWS:\n"
+                    "          BEGINING FIRST OUTAGE = %2d   DURATION = %2d\n"
+                    "          BEGINING SECOND OUTAGE = %2d   DURATION = %2d\n"
+                    % (
+                        NAMU[IU0],
+                        NUMP[IU0],
+                        M3 + 1,
+                        DURLOS[j, 0],
+                        M4 + 1,
+                        DURLOS[j, 1],
+                    )
+                )
+                INDEX1[j] = 1
+            else:
+                INDEX1[j] = 0
+                if IM + 1 != DURLOS[j, 0]:
+                    M3 = MT
+                    M4 = M1
+                else:
+                    M3 = M1
+                    M4 = MT
+                ID1[j, 3] = M3 * 168 - 168
+                ID1[j, 5] = M4 * 168 - 168
+
+            # INDEX(j) is the starting scheduled maintenance week for generator j
+            for ci, MC1 in enumerate([M3, M4]):
+                if MC1 < 0 or DURLOS[j, ci] == 0:
                     continue
-                # end of for-loop 30
-
-            if gotoFlag18:
-                continue
+                MC2 = min(MC1 + DURLOS[j, ci] - 1, 51)
+                CHECK[i, MC1 : MC2 + 1] = LOCREW[j]
+                EFLOAD[MC1 : MC2 + 1] += SCHLOS[j]
+                LOAD[MC1 : MC2 + 1] += CAPLOS[j]
+                INDEX[j, ci] = MC1
+            # end of for-loop 30
     # end of for-loop 89
 
     # Print output of the scheduled generators of the plant
-- 
2.43.0


From 76999ec81f53fcc95b8f0cb3e00d04b6dcc7315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 37/45] fix: take the title as it is written

A title card whose lines are numbers, or words such as TRUE or NA, could not be read.
---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index dd2528f..2df75f9 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -28,7 +28,12 @@ def read_card_ZZTC(filepath):
     :return: (*string*) -- A string describes some basic information about
                             the studied power system (e.g., how many areas).
     """
-    df_ZZTC = pd.read_csv(os.path.join(filepath, "ZZTC.csv"), header=None).to_numpy()
+    df_ZZTC = pd.read_csv(
+        os.path.join(filepath, "ZZTC.csv"),
+        header=None,
+        dtype=str,
+        keep_default_na=False,
+    ).to_numpy()
     data = ". ".join([s[0] for s in df_ZZTC])
     return data
 
-- 
2.43.0


From ff855e43eb1f4e326c9b07e384a3b564e2564283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 38/45] fix: keep the transmission results of every evaluation

The file was opened anew for every evaluation that solves a linear program, so that
only the last one of a run was left in it.
---
 reliabilityassessment/monte_carlo/tm2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 303f6ec..d8c83d6 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -180,7 +180,7 @@ def tm2(
         FLOW[0 : NXD2 - NXD1 + 1] = RES[NXD1 - 1 : NXD2, 0].copy()
 
         if IOI != 0:
-            f = open("traout.txt ", "w")  # maybe 'a' ; need later check
+            f = open("traout.txt ", "a")
             f.write("\n     %8d  %4d  %1d\n" % (LCLOCK, JHOUR, JFLAG))
 
             # print table of units on outage or derated to traout file
@@ -261,7 +261,7 @@ def tm2(
         # except the JFLAG logic in file writing. Maybe we can put it in a
         # function to reduce duplicated code. (may consider in the future)
         if IOI != 0:
-            f = open("traout.txt ", "w")  # maybe 'a' ; need later check
+            f = open("traout.txt ", "a")
             f.write("\n     %8d  %4d  %1d\n" % (LCLOCK, JHOUR, JFLAG))
             JXX = 0
             for i in range(NUNITS):
-- 
2.43.0


From e00fbe7686bbd66cdaa0df93498e9fd0c7c6522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 39/45] fix: number the units in the transmission results from
 one

A derated unit is marked by a negative number; the first unit, numbered zero, could not be
told from a unit that is out.
---
 reliabilityassessment/monte_carlo/tm2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index d8c83d6..24088cf 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -191,14 +191,14 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    NNTAB[JXX] = i
+                    NNTAB[JXX] = i + 1
                     JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                NNTAB[JXX] = i
+                NNTAB[JXX] = i + 1
                 if PCTAVL[i] != 0.0:
-                    NNTAB[JXX] = -i
+                    NNTAB[JXX] = -(i + 1)
                 JXX += 1
 
             f.write("%4d\n" % (JXX))
@@ -266,14 +266,14 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    NNTAB[JXX] = i
+                    NNTAB[JXX] = i + 1
                     JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                NNTAB[JXX] = i
+                NNTAB[JXX] = i + 1
                 if PCTAVL[i] != 0.0:
-                    NNTAB[JXX] = -i
+                    NNTAB[JXX] = -(i + 1)
                 JXX += 1
 
             f.write("%4d\n" % (JXX))
-- 
2.43.0


From c61b894c487c66c5023c3d35f0df7cb19df3f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 40/45] fix: list a unit once where its two planned outages
 overlap

---
 reliabilityassessment/data_processing/smaint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index 611cf17..cdf7976 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -91,8 +91,10 @@ def smaint(
                 j1 = ID[i, wi]
                 # the index of last week of a simulation year is 51 (j2 is exclusive)
                 j2 = min(52, j1 + ID[i, wi + 1])
+                # a unit is listed once where its two outages overlap
+                weeks = [j for j in range(j1, j2) if ID[i, 0] not in JPLOUT[j, 1:]]
                 # increase total number of units under maintenance for the weeks
-                JPLOUT[j1:j2, 0] += 1
-                JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
+                JPLOUT[weeks, 0] += 1
+                JPLOUT[weeks, JPLOUT[weeks, 0]] = int(ID[i, 0])
 
     return JPLOUT, ITAB
-- 
2.43.0


From 7053bd83b3c65eec455313b0f06375b0627d01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 41/45] fix: an upper limit of the energy distribution below 20
 MWh must not crash

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 1fddd4d..73fa8ad 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -83,7 +83,7 @@ def narpMain(TEST_DIR):
         NAMA,
     ) = dataf1(filepaths)
 
-    LSTEP = int(MAXEUE // 20)
+    LSTEP = max(1, int(MAXEUE // 20))
     NUNITS = PROBG.shape[0]
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
-- 
2.43.0


From 8ca19ef2d2ea2bbbe2da609a4a6a7b82cb37414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 42/45] fix: networks of more than 20 areas or about 60 lines
 must not exceed the arrays of the linear program

---
 reliabilityassessment/monte_carlo/conls.py  | 5 +++--
 reliabilityassessment/monte_carlo/connls.py | 5 +++--
 reliabilityassessment/monte_carlo/tm2.py    | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/conls.py b/reliabilityassessment/monte_carlo/conls.py
index a8a18e5..18bea6f 100644
--- a/reliabilityassessment/monte_carlo/conls.py
+++ b/reliabilityassessment/monte_carlo/conls.py
@@ -83,8 +83,9 @@ def conls(BC, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS):
     NP1 = 3 * NX + 1
     NP = 2 * NX + 1
     NP2 = NP1 + NX1
-    NMAX1 = 250
-    NMAX2 = 200
+    # variables and constraints; larger networks need more than 250 and 200
+    NMAX1 = max(250, 2 * NX + 7 * NX1 + 2 * BLP.shape[0])
+    NMAX2 = max(200, 5 * NX1 + 2 * BLP.shape[0])
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/connls.py b/reliabilityassessment/monte_carlo/connls.py
index 49f537b..d2fdba5 100644
--- a/reliabilityassessment/monte_carlo/connls.py
+++ b/reliabilityassessment/monte_carlo/connls.py
@@ -92,8 +92,9 @@ def connls(BC, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS):
                            And modify several arrays in place.
     """
 
-    NMAX2 = 200
-    NMAX1 = 250
+    # constraints and variables; larger networks need more than 200 and 250
+    NMAX2 = max(200, 4 * (NX + 1) + 2 * BLP.shape[0])
+    NMAX1 = max(250, 2 * NX + 5 * (NX + 1) + 2 * BLP.shape[0])
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 24088cf..7c6de30 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -150,7 +150,6 @@ def tm2(
         ZB[:NX, :NX] = ZT[:NX, :NX].copy()
         return FLOW, INDIC
 
-    RES = np.zeros((250, 3))  # may use "N" as its size (check later)
     NUNITS = len(PLNDST)
     NNTAB = np.zeros(NUNITS)  # in Fortran, np.zeros(600)
 
@@ -158,6 +157,7 @@ def tm2(
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = connls(
             BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
+        RES = np.zeros((N, 3))
 
         # NXT = NX + 1 defined but not used in original Fortran
         N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
@@ -236,6 +236,7 @@ def tm2(
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
             BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
+        RES = np.zeros((N, 3))
 
         # NXT = NX + 1 defined but not used in original Fortran
         N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
-- 
2.43.0


From a430a5a90493998c6043334263ba4d5e6b585d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 43/45] fix: areas may have more than 500 units

---
 reliabilityassessment/data_processing/pmsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index ddbd29f..d52a59f 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -70,12 +70,12 @@ def pmsc(
     """
 
     ITC = ITAB
-    INUO = 500  # the possible maximum number of units
     INPO = 150  # the possible maximum number of plants
 
     N = 0  # N is the highest plant number
 
     NUNITS = ID.shape[0]
+    INUO = max(500, NUNITS)  # the possible maximum number of units
 
     # Below are all local arrays created for the conveneice in intermedaite computation
     INDEX = -np.ones((INUO, 2), dtype=int)  # starting weeks (0-based), -1: none
-- 
2.43.0


From b7bc1ce114f55124fb25d89c29437f7f6d8b0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 44/45] fix: contracts may connect more than 60 pairs of areas

---
 reliabilityassessment/data_processing/datax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index e6a5b65..03b6c9c 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -111,7 +111,8 @@ def datax(inputB_dict):
     # if "-1", means none (use "0" here will cause bug since "0-based array index" in Python)
     # otherwise, means the integer index L used in INTCH(L,N).
     JENT = -1 * np.ones((NOAREA, NOAREA), dtype=int)
-    MAX_CONTRACTS = 60  # the maximum possible count of fixed contracts; can be adjusted
+    # the maximum possible count of fixed contracts
+    MAX_CONTRACTS = max(60, len(inputB_dict["ZZFC"]["SNRI"]) if inputB_dict["ZZFC"] else 0)
 
     # INTCH(L,N): contract interchanges MW between areas indicated by pointer L, day N.
     INTCH = np.zeros((MAX_CONTRACTS, 365))
-- 
2.43.0


From bd1807ab1d6b33cbc8643880e2bf58c63057fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:53 +0000
Subject: [PATCH 45/45] fix: keep the basis of the network programs from
 becoming singular

Of the variables which reach zero together the solver took one whatever its
pivot, and its inverse was computed anew only at the end; a pivot of 1e-7 left
by cancellation made the inverse meaningless and the margins NaN, which ended
the run.
---
 reliabilityassessment/monte_carlo/linp.py | 37 +++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index 9230958..f0bae61 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -39,6 +39,8 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
 
     IR = 0
     INV = 0
+    ERR = 0.0  # of the inverse
+    SKIP = []  # variables which cannot enter the basis
     XOB[:N] = XOBI[0, :N].copy()
 
     IPH = 1
@@ -55,6 +57,8 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
         while True:  # 111 while loop
             CM = 0.0
             for i in np.where(IBASF[:N] != 1)[0]:
+                if i in SKIP:
+                    continue
                 CC = XOB[i] - rc(M, PY, A, i)
                 if abs(CC) < 1e-7:
                     CC = 0.0
@@ -93,6 +97,7 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
             BS[:M] = 0.0
             BS[:M] += TABT @ BS1
             TAB = TABT.copy()
+            ERR = abs(TAB @ A[:M, IBAS[:M]] - np.identity(M)).max()
 
             IR = 1
             # GO TO 111 while loop
@@ -101,9 +106,12 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
         if gotoFlag1000 is False:
             IR = 0
             P = mc(M, IND, TAB, A)
+            # smaller elements are errors
+            TOL = max(1e-07, 2 * ERR * abs(P[:M]).sum())
+            IPIV = -1
             ICOUN = 0
 
-            for i in np.where(P[:M] > 1e-07)[0]:
+            for i in np.where(P[:M] > TOL)[0]:
                 BNUM = BS[i] if abs(BS[i]) >= 1e-13 else 0.0
                 RAT = BNUM / P[i]
                 ICOUN += 1
@@ -116,11 +124,25 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if IPH != 2 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                     IPIV = i
 
+            # of the variables which come to zero together (within a tolerance) one with
+            # a tiny pivot would spoil the inverse
+            ROWS = np.where(P[:M] > TOL)[0]
+            if len(ROWS) > 0:
+                STEP = ((BS[ROWS].clip(min=0.0) + 1e-09) / P[ROWS]).min()
+                TIES = ROWS[BS[ROWS] / P[ROWS] <= STEP]
+                if P[IPIV] < 0.1 * P[TIES].max():
+                    IPIV = TIES[P[TIES].argmax()]
+
             if IPH == 2:
                 # an artificial variable still in the basis (at zero) must not grow
-                for i in np.where((IBAS[:M] >= N1) & (P[:M] < -1e-07))[0]:
+                for i in np.where((IBAS[:M] >= N1) & (P[:M] < -TOL))[0]:
                     IPIV = i
 
+            if IPIV < 0:
+                SKIP.append(IND)
+                continue
+            SKIP = []
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
@@ -135,6 +157,17 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
             IBASF[K1] = 0
             IBASF[IND] = 1
             IBAS[IPIV] = IND
+
+            # compute the inverse anew before its errors grow
+            TABT = A[:M, IBAS[:M]]
+            ERR = abs(TAB @ TABT - np.identity(M)).max()
+            if ERR > 1e-10:
+                BASIS = TABT.copy()
+                IPVT = dgeco(TABT, M)
+                dgedi(TABT, M, IPVT)
+                TAB = TABT.copy()
+                BS[:M] = TAB @ BS1
+                ERR = abs(TAB @ BASIS - np.identity(M)).max()
             # GO TO 110 while loop
         else:  # 1000  CONTINUE
             if IPH == 2:
-- 
2.43.0

