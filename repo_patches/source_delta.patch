From d4dba7be58bcd8950749f381888fbc42ac67d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 01/85] fix: TimeRange::operator< ranks an exclusive start
 against a later inclusive one

---
 core/lib/TimeHandling/TimeRange.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..480173f 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -194,8 +194,12 @@ namespace gpstk
         {
           return true; 
         }
+        return false;
      }
-     return false;
+
+        // Otherwise left is NOT inclusive and right is, so left must
+        // start strictly before right.
+     return (start<right.start);
    }
 
       // True if start/end of this object are both prior
-- 
2.43.0


From c15e3d14a3e5e5d92918584503bb9699aae2a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 02/85] fix: BDS/GAL/QZSWeekSecond::printError formats error
 strings with %u and %f

---
 core/lib/TimeHandling/BDSWeekSecond.hpp | 4 ++--
 core/lib/TimeHandling/GALWeekSecond.hpp | 4 ++--
 core/lib/TimeHandling/QZSWeekSecond.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/lib/TimeHandling/BDSWeekSecond.hpp b/core/lib/TimeHandling/BDSWeekSecond.hpp
index 7f236d1..f8a1ccb 100644
--- a/core/lib/TimeHandling/BDSWeekSecond.hpp
+++ b/core/lib/TimeHandling/BDSWeekSecond.hpp
@@ -151,9 +151,9 @@ namespace gpstk
             rv = formattedPrint( rv, getFormatPrefixInt() + "e",
                                  "es", "BadBDSmweek");
             rv = formattedPrint( rv, getFormatPrefixInt() + "w",
-                                 "wu", "BadBDSdow");
+                                 "ws", "BadBDSdow");
             rv = formattedPrint( rv, getFormatPrefixFloat() + "g",
-                                 "gf", "BadBDSsow");
+                                 "gs", "BadBDSsow");
             rv = formattedPrint( rv, getFormatPrefixInt() + "P",
                                  "Ps", "BadBDSsys");
             return rv;
diff --git a/core/lib/TimeHandling/GALWeekSecond.hpp b/core/lib/TimeHandling/GALWeekSecond.hpp
index 7275710..0efb77a 100644
--- a/core/lib/TimeHandling/GALWeekSecond.hpp
+++ b/core/lib/TimeHandling/GALWeekSecond.hpp
@@ -149,9 +149,9 @@ namespace gpstk
             rv = formattedPrint( rv, getFormatPrefixInt() + "l",
                                  "ls", "BadGALmweek");
             rv = formattedPrint( rv, getFormatPrefixInt() + "w",
-                                 "wu", "BadGALdow");
+                                 "ws", "BadGALdow");
             rv = formattedPrint( rv, getFormatPrefixFloat() + "g",
-                                 "gf", "BadGALsow");
+                                 "gs", "BadGALsow");
             rv = formattedPrint( rv, getFormatPrefixInt() + "P",
                                  "Ps", "BadGALsys");
             return rv;
diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 4ced809..a07f573 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -150,9 +150,9 @@ namespace gpstk
             rv = formattedPrint( rv, getFormatPrefixInt() + "i",
                                  "is", "BadQZSmweek");
             rv = formattedPrint( rv, getFormatPrefixInt() + "w",
-                                 "wu", "BadQZSdow");
+                                 "ws", "BadQZSdow");
             rv = formattedPrint( rv, getFormatPrefixFloat() + "g",
-                                 "gf", "BadQZSsow");
+                                 "gs", "BadQZSsow");
             rv = formattedPrint( rv, getFormatPrefixInt() + "P",
                                  "Ps", "BadQZSsys");
             return rv;
-- 
2.43.0


From df270acdbb5777446f1bb8568256dfc4eb9d510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 03/85] fix: QZSWeekSecond::setFromInfo parses the printed time
 system name

---
 core/lib/TimeHandling/QZSWeekSecond.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index a07f573..929ab11 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -189,7 +189,7 @@ namespace gpstk
                   sow = gpstk::StringUtils::asDouble( i->second );
                   break;
                case 'P':
-                  timeSystem = static_cast<TimeSystem>(gpstk::StringUtils::asInt( i->second ));
+                  timeSystem = gpstk::StringUtils::asTimeSystem(i->second);
                   break;
                default:
                      // do nothing
-- 
2.43.0


From 22fc779622956485e41d69ff73e7b8205b8eda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 04/85] fix: SP3Data reads the fraction of the epoch's seconds
 (columns 21-31) instead of dropping it

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index f8e5bd5..1444b08 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -163,7 +163,7 @@ namespace gpstk
             int dom = asInt(strm.lastLine.substr(11,2));
             int hour = asInt(strm.lastLine.substr(14,2));
             int minute = asInt(strm.lastLine.substr(17,2));
-            double second = asInt(strm.lastLine.substr(20,10));
+            double second = asDouble(strm.lastLine.substr(20,11));
             CivilTime t;
             try {
                t = CivilTime(year, month, dom, hour, minute, second, timeSystem);
-- 
2.43.0


From 7a368eea1182ed28f8e1f3038b45c610f69cabdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 05/85] fix: SEMData computes i_total from the inclination
 offset in radians, not semicircles

---
 ext/lib/FileHandling/SEM/SEMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/SEM/SEMData.cpp b/ext/lib/FileHandling/SEM/SEMData.cpp
index 980f119..9fb0295 100644
--- a/ext/lib/FileHandling/SEM/SEMData.cpp
+++ b/ext/lib/FileHandling/SEM/SEMData.cpp
@@ -146,12 +146,12 @@ namespace gpstk
       end = line.find_first_of(whitespace,front);
       length = end - front;
       i_offset = line.substr(front,length);
-      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
 
       front = line.find_first_not_of(whitespace,end);
       length = line.length() - front;
       OMEGAdot = line.substr(front,length);
       i_offset *= gpstk::PI;
+      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
       OMEGAdot *= gpstk::PI;
 
       // Sixth line - Sqrt of A, Omega0, and Arg of Perigee
-- 
2.43.0


From 9b5b8e2280016849d9e725bc5b76e41b970d79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 06/85] fix: SEM and Yuma week rollover moves by whole
 1024-week epochs

---
 ext/lib/FileHandling/SEM/SEMHeader.cpp | 4 ++--
 ext/lib/FileHandling/Yuma/YumaData.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/FileHandling/SEM/SEMHeader.cpp b/ext/lib/FileHandling/SEM/SEMHeader.cpp
index bf5118b..97f6404 100644
--- a/ext/lib/FileHandling/SEM/SEMHeader.cpp
+++ b/ext/lib/FileHandling/SEM/SEMHeader.cpp
@@ -118,9 +118,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
       strm.header = *this;
diff --git a/ext/lib/FileHandling/Yuma/YumaData.cpp b/ext/lib/FileHandling/Yuma/YumaData.cpp
index 5c53540..7476d9a 100644
--- a/ext/lib/FileHandling/Yuma/YumaData.cpp
+++ b/ext/lib/FileHandling/Yuma/YumaData.cpp
@@ -254,9 +254,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
    } // end of reallyGetRecord()
-- 
2.43.0


From 1b4dcb376c0131500ad9393ae2faad13bd05e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 07/85] fix: Rinex3NavData writes the RINEX 2 GLONASS message
 frame time in seconds of day, as it is read

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 72cfb7f..4a2c8e3 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1040,7 +1040,13 @@ namespace gpstk
 
       if (satSys == "R" || satSys == "S")
       {
-         strm << TauN << GammaN << RNDouble(MFtime);
+         long mft = MFtime;
+         if (satSys == "R" && strm.header.version < 3)
+         {
+               // RINEX 2 has seconds of the UTC day, see getPRNEpoch()
+            mft -= int(GPSWeekSecond(time).sow/86400) * 86400;
+         }
+         strm << TauN << GammaN << RNDouble(mft);
       }
       else if (satSys == "G" || satSys == "E" || satSys == "J" || satSys == "C")
       {
-- 
2.43.0


From 7564fb179fa833b64fe66fe1b3ade12930a0a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 08/85] fix: Rinex3NavData to EngEphemeris wraps the end of the
 fit interval back into the next week

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 4a2c8e3..811c657 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -612,7 +612,7 @@ namespace gpstk
                                           TimeSystem::GPS);
       if (endFitSOW >= FULLWEEK)
       {
-         endFitSOW += FULLWEEK;
+         endFitSOW -= FULLWEEK;
          endFitWk++;
       }
 
-- 
2.43.0


From 2283e7761c6fc38dd193d576e8907e5b8e18e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 09/85] fix: Rinex3NavData(const RinexNavData&) copies Cuc

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 811c657..ecd5cc8 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -83,6 +83,7 @@ namespace gpstk
       Tgd2 = 0.0;
 
       // perturbations
+      Cuc = rnd.Cuc;
       Cus = rnd.Cus;
       Crc = rnd.Crc;
       Crs = rnd.Crs;
-- 
2.43.0


From 9e6208583facb4b7ce4a74ec012be075a2662721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 10/85] fix: SP3Header reads the fraction of the start time's
 seconds (columns 21-31) instead of dropping it

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index c8f868c..8ba2384 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -85,7 +85,7 @@ namespace gpstk
          int dom = asInt(line.substr(11,2));
          int hour = asInt(line.substr(14,2));
          int minute = asInt(line.substr(17,2));
-         double second = asInt(line.substr(20,10));
+         double second = asDouble(line.substr(20,11));
          try {
             time = CivilTime(year, month, dom, hour, minute, second);
          }
-- 
2.43.0


From 5fb174629d9e2f918cad6ce12df2e3437e55ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 11/85] fix: RinexClockData left-justifies the name in the
 first record too

---
 core/lib/FileHandling/RINEX/RinexClockData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexClockData.cpp b/core/lib/FileHandling/RINEX/RinexClockData.cpp
index 46686d4..0da388d 100644
--- a/core/lib/FileHandling/RINEX/RinexClockData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexClockData.cpp
@@ -97,7 +97,7 @@ namespace gpstk
          GPSTK_THROW(e);
       }
 
-      s << setw(2) << type.type << ' '
+      s << left << setw(2) << type.type << ' '
         << setw(4) << name << ' '
         << writeTime(epochTime) 
         << right << setw(3) << dvCount << left << "   "
-- 
2.43.0


From b4a71709248a3afbca69547b182ee2d9920ebf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 12/85] fix: Rinex3ClockData writes the RINEX number of a
 satellite, not its internal id

---
 core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
index f8acf6c..f0642b0 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
@@ -72,8 +72,7 @@ namespace gpstk
       }
       else if (datatype == string("AS"))
       {
-         strm << sat.systemChar() << setw(2) << right << setfill('0') << sat.id
-              << setfill(' ') << ' ';
+         strm << right << sat.toString() << ' ';
       }
       else
       {
-- 
2.43.0


From 6579e44a78897fb18f2a31d941b1c0fd817130ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 13/85] fix: Rinex3ObsData::writeTime gives a blank epoch the
 width of a written one

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 78836cb..4268209 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -788,7 +788,7 @@ namespace gpstk
    string Rinex3ObsData::writeTime(const CommonTime& ct) const
    {
       if(ct == CommonTime::BEGINNING_OF_TIME)
-         return string(26, ' ');
+         return string(28, ' ');
 
       CivilTime civtime(ct);
       string line;
-- 
2.43.0


From edb5b528950ba13c3bbadd15f784d2f6855c8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 14/85] fix: Rinex3ObsData writes the epoch flag and count of a
 RINEX 2 record without a time

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 4268209..d19698b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -83,10 +83,10 @@ namespace gpstk
          line += string(1, ' ');
          line += rightJustify(asString<short>(civTime.minute),2);
          line += rightJustify(asString(civTime.second, 7),11);
-         line += string(2, ' ');
-         line += rightJustify(asString<short>(rod.epochFlag), 1);
-         line += rightJustify(asString<short>(rod.numSVs), 3);
       }
+      line += string(2, ' ');
+      line += rightJustify(asString<short>(rod.epochFlag), 1);
+      line += rightJustify(asString<short>(rod.numSVs), 3);
 
          // write satellite ids to 'line'
       const size_t maxPrnsPerLine = 12;
-- 
2.43.0


From 2603ef7b6d11d23a373d57aab82c0210c6a4d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 15/85] fix: EngEphemeris fit interval reaching into the next
 week

---
 core/lib/GNSSEph/EngEphemeris.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 0522e5b..4e57a16 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1080,7 +1080,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
@@ -1221,7 +1221,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
-- 
2.43.0


From cc1e0836154a2a2d1caceb33fb387949c33f7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 16/85] fix: EngEphemeris::setSF2 takes the fit interval from
 the week of Toe

---
 core/lib/GNSSEph/EngEphemeris.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 4e57a16..5076a95 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1210,8 +1210,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600.0;
          long endFitSOW = toe + (fitHours/2)*3600.0;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
-- 
2.43.0


From 55c5c9c18ebc7818e25b26e980a7c2155274c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 17/85] fix: Rinex3NavData to EngEphemeris takes the fit
 interval from the week of the epoch

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index ecd5cc8..b7877ef 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -601,8 +601,8 @@ namespace gpstk
       short fitHours = getLegacyFitInterval(ee.IODC, ee.fitint);
       long beginFitSOW = Toe - (fitHours/2)*3600.0;
       long endFitSOW = Toe + (fitHours/2)*3600.0;
-      short beginFitWk = ee.weeknum;
-      short endFitWk = ee.weeknum;
+      short beginFitWk = epochWeek;
+      short endFitWk = epochWeek;
 
       if (beginFitSOW < 0)
       {
-- 
2.43.0


From eb3f34053ec0b1b51fefedaed8c1a5065478daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 18/85] fix: Rinex3NavData to GPSEphemeris put the transmit
 time a week early

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index b7877ef..4410e2c 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -740,6 +740,7 @@ namespace gpstk
       if (sowToc%3600==0)
       {
          adjXmitTime = sowToc - (gpse.fitint/2 * 3600);
+         adjWeeknum = static_cast<GPSWeekSecond>(time).week;
          if (adjXmitTime<0)
          {
             adjXmitTime += FULLWEEK;
-- 
2.43.0


From ba242b282a553a1b80f6d51f7941fd8e316296ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 19/85] fix: Rinex3NavData to Galileo, BeiDou and QZSS
 ephemerides, transmit time in the week it was sent

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 4410e2c..1cd6701 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -863,6 +863,8 @@ namespace gpstk
       gale.health = GalEphemeris::deriveHealth(HS,DVS,SISA);
 
       week = static_cast<GALWeekSecond>(gale.ctToe).getWeek();
+      if (xmitTime - Toe > HALFWEEK) week--;
+      else if (xmitTime - Toe < -HALFWEEK) week++;
       gale.transmitTime = GALWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::GAL);
       gale.adjustValidity();
@@ -909,6 +911,8 @@ namespace gpstk
 
 //      bdse.HOWtime = xmitTime;
       week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek();
+      if (xmitTime - Toe > HALFWEEK) week--;
+      else if (xmitTime - Toe < -HALFWEEK) week++;
       bdse.transmitTime = BDSWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::BDT);
       bdse.adjustValidity();
@@ -960,6 +964,8 @@ namespace gpstk
 
 //      qzse.HOWtime = xmitTime;
       week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek();
+      if (xmitTime - Toe > HALFWEEK) week--;
+      else if (xmitTime - Toe < -HALFWEEK) week++;
       qzse.transmitTime = QZSWeekSecond(week, static_cast<double>(xmitTime),
                                           TimeSystem::QZS);
       qzse.beginValid = qzse.transmitTime;
-- 
2.43.0


From ad75ef62a659c9e8e8b5dd5ff706ec6055adb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 20/85] fix: Rinex3NavData to QZSEphemeris added 192 to the PRN
 twice

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 1cd6701..03e36ee 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -955,7 +955,6 @@ namespace gpstk
       qzse.ctToc.setTimeSystem(TimeSystem::QZS);
 
       // now load the QZSS-specific parts
-      qzse.satID = SatID(qzse.satID.id + 192, SatelliteSystem::QZSS);
       qzse.IODC = IODC;
       qzse.IODE = IODE;
       qzse.health = health;
-- 
2.43.0


From 54fa14dc4210bf990c9bdf52cca41b6d05022598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 21/85] fix: Rinex3NavData to GPSEphemeris lost fit intervals
 given in hours

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 03e36ee..c1df60b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -718,7 +718,7 @@ namespace gpstk
       gpse.fitint = fitint;
       if (fitint==0) gpse.fitint = 4;
       if (fitint==1) gpse.fitint = 6; 
-      gpse.setFitIntervalFlag(int(fitint)); 
+      gpse.setFitIntervalFlag((gpse.fitint > 4) ? 1 : 0);
 
          // Rinex transmit times are frequently flawed.  For GPS, except for 
          // the first data set in an upload the beginning of transmission is
-- 
2.43.0


From aca3854e5b67ed0769413cdccc97d2d9010124b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 22/85] fix: RinexNavData to GPSEphemeris lost fit intervals
 given in hours

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 40bc576..e422f6a 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -243,7 +243,7 @@ namespace gpstk
 
             /// @note IODC must be set first...
          gpse.fitint = fitint;
-         gpse.setFitIntervalFlag(int(fitint)); 
+         gpse.setFitIntervalFlag((fitint > 4 || fitint == 1) ? 1 : 0);
          gpse.adjustValidity();
       }
       catch(Exception& e)
-- 
2.43.0


From 8dab30c4b29b7acfb7d89f8f782a87ecb5e59b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 23/85] fix: RinexNavData to GPSEphemeris took Toe from the
 clock epoch

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index e422f6a..0a98939 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -193,7 +193,7 @@ namespace gpstk
       {
             // Overhead
          gpse.satID = SatID(PRNID, SatelliteSystem::GPS);
-         gpse.ctToe = time;
+         gpse.ctToe = getToeTime();
 
             // clock model
          gpse.af0 = af0;
-- 
2.43.0


From d034aa1e6334e80306ed6dfb8bd143df3ef8c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 24/85] fix: Rinex3NavData casts to ephemerides took Toe from
 the clock epoch

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index c1df60b..90c2b1b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -652,7 +652,11 @@ namespace gpstk
          sat.fromString(satSys + StringUtils::asString(PRNID));
          oeptr->satID = SatID(sat);
          //obsID = ?? ObsID obsID; // Defines carrier and tracking code
-         oeptr->ctToe = time;
+         // Toe is given in seconds of the week, near the record's epoch
+         double dtToe = Toe - static_cast<GPSWeekSecond>(time).sow;
+         if (dtToe > HALFWEEK) dtToe -= FULLWEEK;
+         else if (dtToe < -HALFWEEK) dtToe += FULLWEEK;
+         oeptr->ctToe = time + dtToe;
 
          // clock model
          oeptr->af0 = af0;
-- 
2.43.0


From 020b8dd4e778c04ed1ec393d6269181d3d029225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 25/85] fix: GPSEphemeris keeps the accuracy in meters of the
 RINEX record and gives it back

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   | 1 +
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 0a98939..3e08bf4 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -232,6 +232,7 @@ namespace gpstk
          gpse.IODE = IODE;
          gpse.health = health;
          gpse.accuracyFlag = accuracy;
+         gpse.accuracy = accuracy;
          gpse.Tgd = Tgd;
 
          gpse.HOWtime = getHOWWS().sow;
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 90c2b1b..001c5ae 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -146,7 +146,7 @@ namespace gpstk
       xmitTime = static_cast<GPSWeekSecond>(gpseph.transmitTime).getSOW();
       weeknum = static_cast<GPSWeekSecond>(gpseph.transmitTime).getWeek();
 
-      accuracy = gpseph.accuracyFlag;
+      accuracy = gpseph.accuracy;
       health = gpseph.health;
 
       codeflgs = gpseph.codeflags;
@@ -714,6 +714,7 @@ namespace gpstk
       gpse.IODE = IODE;
       gpse.health = health;
       gpse.accuracyFlag = accuracy;
+      gpse.accuracy = accuracy;
       gpse.Tgd = Tgd;
       gpse.codeflags = codeflgs;
       gpse.L2Pdata = L2Pdata;
-- 
2.43.0


From 51c1552781c9a292908dc2306687c5675f3df386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 26/85] fix: Rinex3NavData from GalEphemeris wrote the health
 status for the health bits

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 001c5ae..de72b40 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -171,7 +171,14 @@ namespace gpstk
       weeknum = static_cast<GPSWeekSecond>(galeph.transmitTime).getWeek();
 
       IODnav = galeph.IODnav;
-      health = galeph.health;
+      // RINEX holds the broadcast health bits of the data source (RINEX 3.04,
+      // Table A8): give those from which the same status is derived again.
+      unsigned shift = 3;                                   // F/NAV (E5a)
+      if ((galeph.datasources & 0x01) != 0) shift = 0;      // I/NAV (E1B)
+      else if ((galeph.datasources & 0x04) != 0) shift = 6; // I/NAV (E5b)
+      if (galeph.health == Xvt::Healthy) health = 0;
+      else if (galeph.health == Xvt::Degraded) health = 1 << shift;   // DVS
+      else health = 1 << (shift+1);                                   // HS
       accuracy = galeph.accuracy;
       Tgd = galeph.Tgda;
       Tgd2 = galeph.Tgdb;
-- 
2.43.0


From bb63da3bb00c7eda08a7fc43005923778f565c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 27/85] fix: Rinex3NavData to EngEphemeris takes Toe in its own
 week, not that of Toc

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index de72b40..6f6ac8a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -605,11 +605,16 @@ namespace gpstk
       double dndot = 0.0;
       double Adot = 0.0;
 
+      timeDiff = Toe - ee.HOWtime[0];
+      short toeWeek = ee.weeknum;
+      if (timeDiff < -HALFWEEK) toeWeek++;
+      else if (timeDiff > HALFWEEK) toeWeek--;
+
       short fitHours = getLegacyFitInterval(ee.IODC, ee.fitint);
       long beginFitSOW = Toe - (fitHours/2)*3600.0;
       long endFitSOW = Toe + (fitHours/2)*3600.0;
-      short beginFitWk = epochWeek;
-      short endFitWk = epochWeek;
+      short beginFitWk = toeWeek;
+      short endFitWk = toeWeek;
 
       if (beginFitSOW < 0)
       {
@@ -625,7 +630,7 @@ namespace gpstk
       }
 
       CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW, TimeSystem::GPS);
-      CommonTime toeCT = GPSWeekSecond(epochWeek, Toe, TimeSystem::GPS);
+      CommonTime toeCT = GPSWeekSecond(toeWeek, Toe, TimeSystem::GPS);
 
       ee.orbit.loadData( satSys, obsID, PRNID, beginFit, endFit, toeCT,
                       accFlag, healthy, Cuc, Cus, Crc, Crs, Cic, Cis, 
-- 
2.43.0


From 613dca9a745430b008c604a52c6ff40fa1c905ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 28/85] fix: Rinex3NavData from QZSEphemeris took the RINEX
 number for the PRN of sat

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 6f6ac8a..07aa4ba 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -214,8 +214,7 @@ namespace gpstk
       xmitTime = static_cast<QZSWeekSecond>(qzseph.transmitTime).getSOW();
       weeknum = static_cast<QZSWeekSecond>(qzseph.transmitTime).getWeek();
 
-      PRNID -= 192;                    // RINEX stores PRN minus 192
-      sat = RinexSatID(PRNID,SatelliteSystem::QZSS);
+      PRNID -= 192;                    // RINEX stores PRN minus 192 (sat has the PRN)
       IODC = qzseph.IODC;
       IODE = qzseph.IODE;
       health = qzseph.health;
-- 
2.43.0


From 3f93426a1ee8ea9aba54fd2a6f802329325f3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 29/85] fix: EngNav::getSubframePattern read outside its table
 for SV IDs 33-50

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..26f48ed 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         iret = 0;            /* SV ID not used in subframes 4 and 5 */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From df53f6df95e97986bf452c691206a043e896c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 30/85] fix: EngNav::fixParity left D29 and D30 set in inverted
 words 2 and 10

---
 core/lib/GNSSEph/EngNav.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 26f48ed..aeac62a 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -694,10 +694,13 @@ namespace gpstk
       {
             // make sure the non-information bits are zero to start with.
          d &= 0xffffff00;
-         if ((D30 + BinUtils::countBits(bmask[4] & d)) % 2)
-            d |= 0x00000040;
-         if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
-            d |= 0x00000080;
+            // parity is computed over the source data bits, which are
+            // the complement of sfword's when D30 is set
+         uint32_t invert = (D30 && !knownUpright) ? 0xffffffff : 0;
+         if ((D30 + BinUtils::countBits(bmask[4] & (d ^ invert))) % 2)
+            d ^= 0x00000040;
+         if ((D29 + BinUtils::countBits(bmask[5] & (d ^ invert))) % 2)
+            d ^= 0x00000080;
       }
 
       D = computeParity(d, psfword, knownUpright);
-- 
2.43.0


From 5279b290c8d70641baad54b6eb146cc6e5e7c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 31/85] fix: EngNav::fixParity merged the parity bits with
 those already there

---
 core/lib/GNSSEph/EngNav.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index aeac62a..4c2e47d 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -705,7 +705,8 @@ namespace gpstk
 
       D = computeParity(d, psfword, knownUpright);
 
-      return D | d;
+         // replace whatever was in the place of the parity bits
+      return D | (d & ~static_cast<uint32_t>(0x3f));
    }
 
       /// This is the OLD GPSTk method, left here for compatibility
-- 
2.43.0


From 05675f5207fd5d1246c1f4cbc5ec24d012a3368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 32/85] fix: PackedNavBits::asString put a blank before the
 characters unpacked

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..32fe3a3 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -332,7 +332,7 @@ namespace gpstk
    std::string PackedNavBits::asString(const int startBit, const int numChars) const 
    {
       int CHAR_SIZE = 8;
-      string out = " ";
+      string out;
       int currentStart = startBit;
       for (int i = 0; i < numChars; ++i)
       {
-- 
2.43.0


From 0549477d4f400f8a1b90396c47ba7fc1dca6d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 33/85] fix: PackedNavBits wrote past its bits when values were
 added beyond the initial 900 or to a copy

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 32fe3a3..5d6dbc0 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -603,6 +603,8 @@ namespace gpstk
    void PackedNavBits::addUint64_t( const uint64_t value, const int numBits )
    {
       size_t ndx = bits_used;
+         // Copies, trimmed and appended-to objects hold exactly bits_used bits
+      if (bits.size() < ndx + numBits) bits.resize(ndx + numBits);
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
 
-- 
2.43.0


From 8d13eea8c091dfe1edb0ec91bfdbe8eff4e836c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 34/85] fix: PackedNavBits compared unequal to its own copy

---
 core/lib/GNSSEph/PackedNavBits.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 5d6dbc0..d409ce0 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -639,13 +639,12 @@ namespace gpstk
          // happen.  In the context of NavFilter, data SHOULD be
          // from the same system, therefore, the same length should 
          // always be true.
-      if (bits.size()!=right.bits.size())
+      if (bits_used!=right.bits_used)
       {
-         if (bits.size()<right.bits.size()) return true;
-         return false;
+         return (bits_used<right.bits_used);
       }
 
-      for (int i=0;i<bits.size();i++)
+      for (int i=0;i<bits_used;i++)
       {
          if (bits[i]==false && right.bits[i]==true)
          //if (bits[i]<right.bits[i])
@@ -941,15 +940,16 @@ namespace gpstk
    {
          // If the two objects don't have the same number of bits,
          // don't even try to compare them. 
-      if (bits.size()!=right.bits.size()) return false; 
+      if (bits_used!=right.bits_used) return false; 
+      if (bits_used==0) return true;
 
       short startBit = startBitA;
       short endBit = endBitA; 
          // Check for nonsense arguments
       if (endBit==-1 ||
-          endBit>=int(bits.size())) endBit = bits.size()-1;
+          endBit>=bits_used) endBit = bits_used-1;
       if (startBit<0) startBit=0;
-      if (startBit>=int(bits.size())) startBit = bits.size()-1;
+      if (startBit>=bits_used) startBit = bits_used-1;
 
       for (int i=startBit;i<=endBit;i++)
       {
-- 
2.43.0


From 701f1ce06aac409352073d930ad1562f82976006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 35/85] fix: SP3Stream's destructor lets no exception out

---
 core/lib/FileHandling/SP3/SP3Stream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Stream.cpp b/core/lib/FileHandling/SP3/SP3Stream.cpp
index bff0e4e..cb88178 100644
--- a/core/lib/FileHandling/SP3/SP3Stream.cpp
+++ b/core/lib/FileHandling/SP3/SP3Stream.cpp
@@ -66,7 +66,14 @@ namespace gpstk
    SP3Stream ::
    ~SP3Stream()
    {
-      close();
+         // a destructor must not throw; call close() to hear of failures
+      try
+      {
+         close();
+      }
+      catch(...)
+      {
+      }
    }
 
 
-- 
2.43.0


From 4164377717ac7273763598813ae5ff542205b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 36/85] fix: Epoch and EphTime operations that can throw are
 not declared throw()

---
 core/lib/TimeHandling/Epoch.cpp        | 20 ++++++--------------
 core/lib/TimeHandling/Epoch.hpp        | 24 ++++++++----------------
 ext/lib/Geomatics/EarthOrientation.cpp |  1 -
 ext/lib/Geomatics/EarthOrientation.hpp |  5 ++---
 ext/lib/Geomatics/EphTime.hpp          |  4 ++--
 5 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/core/lib/TimeHandling/Epoch.cpp b/core/lib/TimeHandling/Epoch.cpp
index 2591a18..ebb7d67 100644
--- a/core/lib/TimeHandling/Epoch.cpp
+++ b/core/lib/TimeHandling/Epoch.cpp
@@ -115,7 +115,6 @@ namespace gpstk
       // @param z GPSZcount object to set to
       // @param f Time frame (see #TimeFrame)
    Epoch::Epoch(const GPSZcount& z)
-      throw()
          : tolerance(EPOCH_TOLERANCE)
    {
       set(z);
@@ -157,7 +156,6 @@ namespace gpstk
       // @param right Epoch to subtract from this one.
       // @return difference in seconds.
    double Epoch::operator-(const Epoch& right) const
-      throw()
    {
       return core - right.core;
    }
@@ -261,8 +259,7 @@ namespace gpstk
    }
 
       // Equality operator.
-   bool Epoch::operator==(const Epoch &right) const 
-      throw()
+   bool Epoch::operator==(const Epoch &right) const
    {
       // use the smaller of the two tolerances for comparison
       return (ABS(operator-(right)) <=
@@ -270,38 +267,33 @@ namespace gpstk
    }
 
       // Inequality operator.
-   bool Epoch::operator!=(const Epoch &right) const 
-      throw()
+   bool Epoch::operator!=(const Epoch &right) const
    {
       return !(operator==(right));
    }
 
       // Comparison operator (less-than).
-   bool Epoch::operator<(const Epoch &right) const 
-      throw()
+   bool Epoch::operator<(const Epoch &right) const
    {
       return (operator-(right) <
             -((tolerance > right.tolerance) ? right.tolerance : tolerance));
    }
 
       // Comparison operator (greater-than).
-   bool Epoch::operator>(const Epoch &right) const 
-      throw()
+   bool Epoch::operator>(const Epoch &right) const
    {
       return (operator-(right) >
             ((tolerance > right.tolerance) ? right.tolerance : tolerance));
    }
    
       // Comparison operator (less-than or equal-to).
-   bool Epoch::operator<=(const Epoch &right) const 
-      throw()
+   bool Epoch::operator<=(const Epoch &right) const
    {
       return !(operator>(right));
    }
 
       // Comparison operator (greater-than or equal-to).
-   bool Epoch::operator>=(const Epoch &right) const 
-      throw()
+   bool Epoch::operator>=(const Epoch &right) const
    {
       return !(operator<(right));
    }
diff --git a/core/lib/TimeHandling/Epoch.hpp b/core/lib/TimeHandling/Epoch.hpp
index 320f64d..3242ea2 100644
--- a/core/lib/TimeHandling/Epoch.hpp
+++ b/core/lib/TimeHandling/Epoch.hpp
@@ -238,8 +238,7 @@ namespace gpstk
          /** GPSZcount Constructor.
           * Set the current time using the given GPSZcount.
           */
-      Epoch(const GPSZcount& gzc)
-         throw();
+      Epoch(const GPSZcount& gzc);
       
          // Other Constructors:
          // gps 29-bit zcount w/ epoch determined by current system time
@@ -269,8 +268,7 @@ namespace gpstk
           * @param right Epoch to subtract from this one.
           * @return difference in seconds.
           */
-      double operator-(const Epoch& right) const
-         throw();
+      double operator-(const Epoch& right) const;
 
          /**
           * Add seconds to this time.
@@ -333,18 +331,12 @@ namespace gpstk
 
          /// @name Comparisons
          //@{
-      bool operator==(const Epoch &right) const
-         throw();
-      bool operator!=(const Epoch &right) const
-         throw();
-      bool operator<(const Epoch &right) const
-         throw();
-      bool operator>(const Epoch &right) const
-         throw();
-      bool operator<=(const Epoch &right) const
-         throw();
-      bool operator>=(const Epoch &right) const
-         throw();
+      bool operator==(const Epoch &right) const;
+      bool operator!=(const Epoch &right) const;
+      bool operator<(const Epoch &right) const;
+      bool operator>(const Epoch &right) const;
+      bool operator<=(const Epoch &right) const;
+      bool operator>=(const Epoch &right) const;
          //@}
 
          /// @name Accessor Methods (get and set)
diff --git a/ext/lib/Geomatics/EarthOrientation.cpp b/ext/lib/Geomatics/EarthOrientation.cpp
index 010a6ff..f19a22e 100644
--- a/ext/lib/Geomatics/EarthOrientation.cpp
+++ b/ext/lib/Geomatics/EarthOrientation.cpp
@@ -2057,7 +2057,6 @@ namespace gpstk
    // return Matrix<double>(3,3) rotation matrix CIP -> TRS
    Matrix<double> EarthOrientation::PolarMotionMatrix2003(EphTime t,
                                                          double xp, double yp)
-      throw()
    {
       double sp(Sprime(t));      // parameter s' provides position of TEO on CIP
       LOG(DEBUG7) << "\nsp = " << fixed << setprecision(15) << setw(18) << sp
diff --git a/ext/lib/Geomatics/EarthOrientation.hpp b/ext/lib/Geomatics/EarthOrientation.hpp
index 3bb9555..43cbbf8 100644
--- a/ext/lib/Geomatics/EarthOrientation.hpp
+++ b/ext/lib/Geomatics/EarthOrientation.hpp
@@ -409,7 +409,7 @@ namespace gpstk {
       static double Sprime(double T) throw();
 
       /// Sprime with EphTime input; cf. Sprime(double T == CoordTransTime(t))
-      static double Sprime(EphTime t) throw()
+      static double Sprime(EphTime t)
          { return Sprime(CoordTransTime(t)); }
 
       //------------------------------------------------------------------------------
@@ -586,8 +586,7 @@ namespace gpstk {
       /// @param xp, Earth wobble in arcseconds, as found in the IERS bulletin.
       /// @param yp, Earth wobble in arcseconds, as found in the IERS bulletin.
       /// @return Matrix<double>(3,3) rotation matrix CIP -> TRS
-      static Matrix<double> PolarMotionMatrix2003(EphTime t, double xp, double yp)
-         throw();
+      static Matrix<double> PolarMotionMatrix2003(EphTime t, double xp, double yp);
 
       //------------------------------------------------------------------------------
       /// Compute Fukushima-Williams angles for computing nutation, frame bias and
diff --git a/ext/lib/Geomatics/EphTime.hpp b/ext/lib/Geomatics/EphTime.hpp
index ffbce7d..fcd0c52 100644
--- a/ext/lib/Geomatics/EphTime.hpp
+++ b/ext/lib/Geomatics/EphTime.hpp
@@ -192,7 +192,7 @@ namespace gpstk
       }
 
       /// const cast EphTime to CommonTime
-      operator CommonTime() const throw()
+      operator CommonTime() const
       {
          MJD ctmjd;
          ctmjd.mjd = static_cast<long double>(iMJD + dSOD/SEC_PER_DAY);
@@ -203,7 +203,7 @@ namespace gpstk
 
       // no this is not a duplicate of the previous function
       /// non-const cast EphTime to CommonTime
-      operator CommonTime() throw()
+      operator CommonTime()
       {
          MJD ctmjd;
          ctmjd.mjd = static_cast<long double>(iMJD + dSOD/SEC_PER_DAY);
-- 
2.43.0


From b28f8c96356081dc8e9d92b5629e6aae231c9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 37/85] fix: RINEX, SP3 and BINEX record functions that can
 throw are not declared throw()

---
 core/lib/FileDirProc/FileStore.hpp             |  2 +-
 core/lib/FileHandling/Binex/BinexData.cpp      |  1 -
 core/lib/FileHandling/Binex/BinexData.hpp      |  3 +--
 core/lib/FileHandling/RINEX/RinexNavData.cpp   |  2 +-
 core/lib/FileHandling/RINEX/RinexNavData.hpp   |  2 +-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 10 +++++-----
 core/lib/FileHandling/RINEX3/Rinex3NavData.hpp | 10 +++++-----
 core/lib/FileHandling/SP3/SP3Data.cpp          |  2 +-
 core/lib/FileHandling/SP3/SP3Data.hpp          |  2 +-
 9 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/core/lib/FileDirProc/FileStore.hpp b/core/lib/FileDirProc/FileStore.hpp
index dc0ae66..e3c0343 100644
--- a/core/lib/FileDirProc/FileStore.hpp
+++ b/core/lib/FileDirProc/FileStore.hpp
@@ -114,7 +114,7 @@ namespace gpstk
 
          /// dump a list of file names
       void dump(std::ostream& os = std::cout, short detail = 0)
-         const throw()
+         const
       {
          int n(0);
          os << "Dump of FileStore\n";
diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..0b389e7 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -924,7 +924,6 @@ namespace gpstk
    // -------------------------------------------------------------------------
    BinexData::BinexData(RecordID recordID,
                         SyncByte recordFlags)
-      throw()
    {
       setRecordFlags(recordFlags);
       setRecordID(recordID);
diff --git a/core/lib/FileHandling/Binex/BinexData.hpp b/core/lib/FileHandling/Binex/BinexData.hpp
index 66cf630..8cd1b7b 100644
--- a/core/lib/FileHandling/Binex/BinexData.hpp
+++ b/core/lib/FileHandling/Binex/BinexData.hpp
@@ -489,8 +489,7 @@ namespace gpstk
           * Convenience constructor
           */
       BinexData(RecordID recordID,
-                SyncByte recordFlags = DEFAULT_RECORD_FLAGS)
-         throw();
+                SyncByte recordFlags = DEFAULT_RECORD_FLAGS);
 
          /**
           * Copies another BinexData object.
diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 3e08bf4..0ef5a55 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -160,7 +160,7 @@ namespace gpstk
         << endl;
    }
 
-   RinexNavData::operator EngEphemeris() const throw()
+   RinexNavData::operator EngEphemeris() const
    {
       EngEphemeris ee;
 
diff --git a/core/lib/FileHandling/RINEX/RinexNavData.hpp b/core/lib/FileHandling/RINEX/RinexNavData.hpp
index 07fece7..e76a54c 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.hpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.hpp
@@ -101,7 +101,7 @@ namespace gpstk
          /**
           * Converts this RinexNavData to an EngEphemeris object.
           */
-      operator EngEphemeris() const throw();
+      operator EngEphemeris() const;
 
          /** Convert this RinexNavData to a GPSEphemeris object.  For
           * backward compatibility only - use Rinex3NavData. */
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 07aa4ba..5af4068 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -546,7 +546,7 @@ namespace gpstk
 
       // Deprecated; use GPSEphemeris.
       // Converts this Rinex3NavData to an EngEphemeris object.
-   Rinex3NavData::operator EngEphemeris() const throw()
+   Rinex3NavData::operator EngEphemeris() const
    {
       EngEphemeris ee;
 
@@ -705,7 +705,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a GPSEphemeris object.
-   Rinex3NavData::operator GPSEphemeris() const throw()
+   Rinex3NavData::operator GPSEphemeris() const
    {
       GPSEphemeris gpse;
 
@@ -801,7 +801,7 @@ namespace gpstk
    }  // End of 'Rinex3NavData::operator GloEphemeris()'
 
       // Casts Rinex3NavData to a GalEphemeris object.
-   Rinex3NavData::operator GalEphemeris() const throw()
+   Rinex3NavData::operator GalEphemeris() const
    {
       GalEphemeris gale;
 
@@ -889,7 +889,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a BDSEphemeris object.
-   Rinex3NavData::operator BDSEphemeris() const throw()
+   Rinex3NavData::operator BDSEphemeris() const
    {
       BDSEphemeris bdse;
 
@@ -937,7 +937,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a QZSEphemeris object.
-   Rinex3NavData::operator QZSEphemeris() const throw()
+   Rinex3NavData::operator QZSEphemeris() const
    {
       QZSEphemeris qzse;
 
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
index 0ed0440..f58447a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
@@ -119,22 +119,22 @@ namespace gpstk
 
          /// deprecated; use GPSEphemeris, GPS-only.
          /// Converts Rinex3NavData to an EngEphemeris object.
-      operator EngEphemeris() const throw();
+      operator EngEphemeris() const;
 
          /// Converts Rinex3NavData to a GPSEphemeris object.
-      operator GPSEphemeris() const throw();
+      operator GPSEphemeris() const;
 
          /// Converts this Rinex3NavData to a GloEphemeris object.
       operator GloEphemeris() const throw();
 
          /// Converts Rinex3NavData to a GalEphemeris object.
-      operator GalEphemeris() const throw();
+      operator GalEphemeris() const;
 
          /// Converts Rinex3NavData to a BDSEphemeris object.
-      operator BDSEphemeris() const throw();
+      operator BDSEphemeris() const;
 
          /// Converts Rinex3NavData to a QZSEphemeris object.
-      operator QZSEphemeris() const throw();
+      operator QZSEphemeris() const;
 
          /// Converts the (non-CommonTime) data to an easy list
          /// for comparison operators.
diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 1444b08..919fc7d 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -410,7 +410,7 @@ namespace gpstk
 
    }  // end reallyPutRecord()
 
-   void SP3Data::dump(ostream& s, bool includeC) const throw()
+   void SP3Data::dump(ostream& s, bool includeC) const
    {
       // dump record type (PV*), sat id, and current epoch
       s << RecType << " " << static_cast<SP3SatID>(sat).toString() << " "
diff --git a/core/lib/FileHandling/SP3/SP3Data.hpp b/core/lib/FileHandling/SP3/SP3Data.hpp
index 5d979fa..b0e3370 100644
--- a/core/lib/FileHandling/SP3/SP3Data.hpp
+++ b/core/lib/FileHandling/SP3/SP3Data.hpp
@@ -113,7 +113,7 @@ namespace gpstk
          /// Debug output function.
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Woverloaded-virtual"
-      virtual void dump(std::ostream& s=std::cout, bool includeC=true) const throw();
+      virtual void dump(std::ostream& s=std::cout, bool includeC=true) const;
 #pragma clang diagnostic pop
 
       char RecType;    ///< Data type indicator. P position, V velocity, * epoch
-- 
2.43.0


From fd9ba943bae63b3a6d3b27ba7f38d8de2af3458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 38/85] fix: ephemeris and almanac store functions that can
 throw are not declared throw()

---
 core/lib/GNSSEph/AlmOrbit.cpp             | 4 ++--
 core/lib/GNSSEph/AlmOrbit.hpp             | 6 +++---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp       | 1 -
 core/lib/GNSSEph/BrcKeplerOrbit.hpp       | 2 +-
 core/lib/GNSSEph/OrbElemStore.cpp         | 1 -
 core/lib/GNSSEph/OrbElemStore.hpp         | 2 +-
 core/lib/GNSSEph/RinexEphemerisStore.cpp  | 2 +-
 core/lib/GNSSEph/RinexEphemerisStore.hpp  | 2 +-
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 1 -
 ext/lib/FileHandling/Ionex/IonexStore.hpp | 3 +--
 ext/lib/GNSSEph/GPSAlmanacStore.cpp       | 4 ++--
 ext/lib/GNSSEph/GPSAlmanacStore.hpp       | 4 ++--
 ext/lib/GNSSEph/GPSOrbElemStore.cpp       | 1 -
 ext/lib/GNSSEph/GPSOrbElemStore.hpp       | 3 +--
 ext/lib/GNSSEph/OrbAlmStore.cpp           | 1 -
 ext/lib/GNSSEph/OrbAlmStore.hpp           | 3 +--
 ext/lib/GNSSEph/OrbSysStore.cpp           | 7 +++----
 ext/lib/GNSSEph/OrbSysStore.hpp           | 8 ++++----
 18 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/core/lib/GNSSEph/AlmOrbit.cpp b/core/lib/GNSSEph/AlmOrbit.cpp
index 4bb8120..63a27cb 100644
--- a/core/lib/GNSSEph/AlmOrbit.cpp
+++ b/core/lib/GNSSEph/AlmOrbit.cpp
@@ -189,7 +189,7 @@ namespace gpstk
       return sv;
    }
 
-   CommonTime AlmOrbit::getTransmitTime() const throw()
+   CommonTime AlmOrbit::getTransmitTime() const
    {
       return GPSWeekSecond(getFullWeek(), xmit_time);
    }
@@ -207,7 +207,7 @@ namespace gpstk
       return xmit_week;
    }
 
-   CommonTime AlmOrbit::getToaTime() const throw()
+   CommonTime AlmOrbit::getToaTime() const
    {
       return GPSWeekSecond(week, Toa);
    }
diff --git a/core/lib/GNSSEph/AlmOrbit.hpp b/core/lib/GNSSEph/AlmOrbit.hpp
index b6ce12d..5d97a6d 100644
--- a/core/lib/GNSSEph/AlmOrbit.hpp
+++ b/core/lib/GNSSEph/AlmOrbit.hpp
@@ -78,9 +78,9 @@ namespace gpstk
 
          /// returns full week of TRANSMIT TIME
       short getFullWeek() const throw();
-      CommonTime getTransmitTime() const throw();
-      CommonTime getToaTime() const throw();
-      CommonTime getTimestamp() const throw() { return getToaTime(); }
+      CommonTime getTransmitTime() const;
+      CommonTime getToaTime() const;
+      CommonTime getTimestamp() const { return getToaTime(); }
       short getSVHealth() const throw() { return SV_health; }
 
       void dump(std::ostream& s = std::cout, int verbosity=1) const;
diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index 86eee77..c07d49f 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -812,7 +812,6 @@ namespace gpstk
    }
 #pragma clang diagnostic pop
    void BrcKeplerOrbit::dump(ostream& s) const
-      throw()
    {
       const ios::fmtflags oldFlags = s.flags();
       s.setf(ios::fixed, ios::floatfield);
diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.hpp b/core/lib/GNSSEph/BrcKeplerOrbit.hpp
index 86833c9..e4c0b39 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.hpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.hpp
@@ -347,7 +347,7 @@ namespace gpstk
       double svRelativity(const CommonTime& t) const;
       
          /** Output the contents of this orbit data to the given stream. */
-      void dump(std::ostream& s = std::cout) const throw();
+      void dump(std::ostream& s = std::cout) const;
 
    protected:
          /// @name Overhead information
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..6e1c298 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -175,7 +175,6 @@ namespace gpstk
 // listing behavior.
 
    void OrbElemStore::dump(std::ostream& s, short detail) const
-      throw()
    {
       UBEMap::const_iterator it;
       static const string fmt("%04Y/%02m/%02d %02H:%02M:%02S %P");
diff --git a/core/lib/GNSSEph/OrbElemStore.hpp b/core/lib/GNSSEph/OrbElemStore.hpp
index b95049b..57d47dc 100644
--- a/core/lib/GNSSEph/OrbElemStore.hpp
+++ b/core/lib/GNSSEph/OrbElemStore.hpp
@@ -149,7 +149,7 @@ namespace gpstk
          /// @param[in] s the stream to receive the output; defaults to cout
          /// @param[in] detail the level of detail to provide
       virtual void dump(std::ostream& s = std::cout, short detail = 0)
-         const throw();
+         const;
 
          /**
           * @throw InvalidParameter
diff --git a/core/lib/GNSSEph/RinexEphemerisStore.cpp b/core/lib/GNSSEph/RinexEphemerisStore.cpp
index 709fc45..8f7dd1c 100644
--- a/core/lib/GNSSEph/RinexEphemerisStore.cpp
+++ b/core/lib/GNSSEph/RinexEphemerisStore.cpp
@@ -83,7 +83,7 @@ namespace gpstk
    //--------------------------------------------------------------------------
    //--------------------------------------------------------------------------
    void RinexEphemerisStore::dump(std::ostream& s, short detail)
-      const throw()
+      const
    {
       s << "Dump of RinexEphemerisStore:" << std::endl;
       std::vector<std::string> fileNames = getFileNames();
diff --git a/core/lib/GNSSEph/RinexEphemerisStore.hpp b/core/lib/GNSSEph/RinexEphemerisStore.hpp
index c099ab4..55ca639 100644
--- a/core/lib/GNSSEph/RinexEphemerisStore.hpp
+++ b/core/lib/GNSSEph/RinexEphemerisStore.hpp
@@ -77,7 +77,7 @@ namespace gpstk
           *   2 above, plus dump all the PVT data (use judiciously).
           */
       void dump(std::ostream& s=std::cout, short detail=0)
-         const throw();
+         const;
 
          /** load the given Rinex file
           * @throw FileMissingException
diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index ca57ff2..fc25bf6 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -116,7 +116,6 @@ namespace gpstk
 
       // Insert a new IonexData object into the store
    void IonexStore::addMap(const IonexData& iod)
-      throw()
    {
 
       CommonTime t(iod.time);
diff --git a/ext/lib/FileHandling/Ionex/IonexStore.hpp b/ext/lib/FileHandling/Ionex/IonexStore.hpp
index 4100fda..670b237 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.hpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.hpp
@@ -100,8 +100,7 @@ namespace gpstk
 
 
          /// Insert a new IonexData object into the store
-      void addMap(const IonexData& iod)
-         throw();
+      void addMap(const IonexData& iod);
 
 
          /** Dump the store to the provided std::ostream (std::cout by default).
diff --git a/ext/lib/GNSSEph/GPSAlmanacStore.cpp b/ext/lib/GNSSEph/GPSAlmanacStore.cpp
index 6624a5f..65bbfa1 100644
--- a/ext/lib/GNSSEph/GPSAlmanacStore.cpp
+++ b/ext/lib/GNSSEph/GPSAlmanacStore.cpp
@@ -71,7 +71,7 @@ namespace gpstk
       return a.getSVHealth();
    }
 
-   bool GPSAlmanacStore::addAlmanac(const AlmOrbit& alm) throw()
+   bool GPSAlmanacStore::addAlmanac(const AlmOrbit& alm)
    {
       if ((alm.getPRNID() >= 1) && (alm.getPRNID() <= MAX_PRN_GPS))
       {
@@ -89,7 +89,7 @@ namespace gpstk
       return false;
    }
 
-   bool GPSAlmanacStore::addAlmanac(const EngAlmanac& alm) throw()
+   bool GPSAlmanacStore::addAlmanac(const EngAlmanac& alm)
    {
       AlmOrbits ao = alm.getAlmOrbElems();
       AlmOrbits::const_iterator oci;
diff --git a/ext/lib/GNSSEph/GPSAlmanacStore.hpp b/ext/lib/GNSSEph/GPSAlmanacStore.hpp
index d144d62..8fa53a9 100644
--- a/ext/lib/GNSSEph/GPSAlmanacStore.hpp
+++ b/ext/lib/GNSSEph/GPSAlmanacStore.hpp
@@ -172,9 +172,9 @@ namespace gpstk
       short getSatHealth(const SatID sat, const CommonTime& t) 
          const;
 
-      bool addAlmanac(const AlmOrbit& alm) throw();
+      bool addAlmanac(const AlmOrbit& alm);
 
-      bool addAlmanac(const EngAlmanac& alm) throw();
+      bool addAlmanac(const EngAlmanac& alm);
 
       /// gets the closest almanac for the given time and satellite id,
       /// closest being in the past or future and "closest" being defined
diff --git a/ext/lib/GNSSEph/GPSOrbElemStore.cpp b/ext/lib/GNSSEph/GPSOrbElemStore.cpp
index 5c20cd1..5932893 100644
--- a/ext/lib/GNSSEph/GPSOrbElemStore.cpp
+++ b/ext/lib/GNSSEph/GPSOrbElemStore.cpp
@@ -63,7 +63,6 @@ namespace gpstk
 //--------------------------------------------------------------------------
 
    void GPSOrbElemStore::dump(std::ostream& s, short detail) const
-      throw()
    {
       UBEMap::const_iterator it;
       static const string fmt("%04Y/%02m/%02d %02H:%02M:%02S %P");
diff --git a/ext/lib/GNSSEph/GPSOrbElemStore.hpp b/ext/lib/GNSSEph/GPSOrbElemStore.hpp
index 0d5b9e4..21ab10b 100644
--- a/ext/lib/GNSSEph/GPSOrbElemStore.hpp
+++ b/ext/lib/GNSSEph/GPSOrbElemStore.hpp
@@ -77,8 +77,7 @@ namespace gpstk
       virtual ~GPSOrbElemStore()
       { clear();}
 
-      void dump(std::ostream& s=std::cout, short detail=0) const
-         throw();
+      void dump(std::ostream& s=std::cout, short detail=0) const;
 
    }; // end class
 
diff --git a/ext/lib/GNSSEph/OrbAlmStore.cpp b/ext/lib/GNSSEph/OrbAlmStore.cpp
index 6cb248c..3fe6ec1 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.cpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.cpp
@@ -173,7 +173,6 @@ namespace gpstk
 //--------------------------------------------------------------------------
 
    void OrbAlmStore::dump(std::ostream& s, short detail) const
-      throw()
    {
       dumpSubjAlm(s,detail);
       dumpXmitAlm(s,detail);
diff --git a/ext/lib/GNSSEph/OrbAlmStore.hpp b/ext/lib/GNSSEph/OrbAlmStore.hpp
index 0f979ef..8296739 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.hpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.hpp
@@ -144,8 +144,7 @@ namespace gpstk
       /// all data stored in this object.
       /// @param[in] s the stream to receive the output; defaults to cout
       /// @param[in] detail the level of detail to provide
-      virtual void dump( std::ostream& s = std::cout, short detail = 0 ) const
-         throw();
+      virtual void dump( std::ostream& s = std::cout, short detail = 0 ) const;
 
       /// Edit the dataset, removing data outside the indicated time interval
       /// @param tmin defines the beginning of the time interval, included
diff --git a/ext/lib/GNSSEph/OrbSysStore.cpp b/ext/lib/GNSSEph/OrbSysStore.cpp
index 4d4fd98..24993fd 100644
--- a/ext/lib/GNSSEph/OrbSysStore.cpp
+++ b/ext/lib/GNSSEph/OrbSysStore.cpp
@@ -249,7 +249,6 @@ namespace gpstk
 
 //--------------------------------------------------------------------------
    void OrbSysStore::dump(std::ostream& s, short detail) const
-      throw()
    {
       if (debugLevel) cout << "Entering dump()" << endl;
 
@@ -388,7 +387,7 @@ namespace gpstk
 
 //-----------------------------------------------------------------------------
    void OrbSysStore::dumpTerse(std::ostream& s)
-         const throw()
+         const
    {
       s << "**********************************************************" << endl;
       s << " One-line summary of non-orbit constellation overhead data" << endl;
@@ -419,7 +418,7 @@ namespace gpstk
 
 //-----------------------------------------------------------------------------
    void OrbSysStore::dumpTerseTimeOrder(std::ostream& s)
-         const throw()
+         const
    {
       s << "**********************************************************" << endl;
       s << " One-line summary of non-orbit constellation overhead data" << endl;
@@ -558,7 +557,7 @@ namespace gpstk
                                 const gpstk::SatID& sidr,
                                 const gpstk::NavID& navtype,
                                 const unsigned long UID)
-         const throw()
+         const
    {
       bool allSats = false;
       bool allNM = false;
diff --git a/ext/lib/GNSSEph/OrbSysStore.hpp b/ext/lib/GNSSEph/OrbSysStore.hpp
index 62cc3d3..8814952 100644
--- a/ext/lib/GNSSEph/OrbSysStore.hpp
+++ b/ext/lib/GNSSEph/OrbSysStore.hpp
@@ -103,13 +103,13 @@ namespace gpstk
       /// @param[in] s the stream to receive the output; defaults to cout
       /// @param[in] detail the level of detail to provide
       virtual void dump(std::ostream& s = std::cout, short detail = 0)
-         const throw();
+         const;
 
       virtual void dumpTerse(std::ostream& s = std::cout)
-         const throw();
+         const;
 
       virtual void dumpTerseTimeOrder(std::ostream& s = std::cout)
-         const throw();
+         const;
 
       virtual void dumpContents(std::ostream& s = std::cout,
                                 const gpstk::SatID& sidr =
@@ -117,7 +117,7 @@ namespace gpstk
                                 const gpstk::NavID& navtype =
                                       gpstk::NavID(gpstk::NavType::Unknown),
                                 const unsigned long UID = 0)
-         const throw();
+         const;
 
 
       /// Clear the dataset, meaning remove all data
-- 
2.43.0


From 741540f0d9550ac73ff5c78eebe1c1e47b19d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 39/85] fix: pass, clock, weather and solution functions that
 can throw are not declared throw()

---
 core/lib/ClockModel/LinearClockModel.hpp |  5 ++---
 core/lib/ClockModel/ORDEpoch.hpp         |  2 +-
 core/lib/GNSSCore/WxObsMap.cpp           |  3 +--
 core/lib/GNSSCore/WxObsMap.hpp           |  4 ++--
 ext/lib/Geomatics/AntexData.cpp          |  2 +-
 ext/lib/Geomatics/AntexData.hpp          |  2 +-
 ext/lib/Geomatics/EOPStore.cpp           |  1 -
 ext/lib/Geomatics/EOPStore.hpp           |  3 +--
 ext/lib/Geomatics/SatPass.cpp            | 10 +++++-----
 ext/lib/Geomatics/SatPass.hpp            | 16 ++++++++--------
 ext/lib/Geomatics/SatPassIterator.cpp    |  2 +-
 ext/lib/Geomatics/SatPassIterator.hpp    |  6 +++---
 ext/lib/PosSol/PRSolutionLegacy.cpp      |  1 -
 ext/lib/PosSol/PRSolutionLegacy.hpp      |  3 +--
 14 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/core/lib/ClockModel/LinearClockModel.hpp b/core/lib/ClockModel/LinearClockModel.hpp
index e89c2a9..a1cc41d 100644
--- a/core/lib/ClockModel/LinearClockModel.hpp
+++ b/core/lib/ClockModel/LinearClockModel.hpp
@@ -65,8 +65,7 @@ namespace gpstk
       LinearClockModel(double sigma = 2, double elmask = 0, SvMode mode = ALWAYS)
             :ObsClockModel(sigma, elmask, mode) {reset();};
 
-      virtual double getOffset(const gpstk::CommonTime& t) const 
-         throw()
+      virtual double getOffset(const gpstk::CommonTime& t) const
       {
          if (!isOffsetValid(t))
             return 0;
@@ -74,7 +73,7 @@ namespace gpstk
             return clockModel.Slope()*(t-baseTime) + clockModel.Intercept();
       };
 
-      virtual bool isOffsetValid(const gpstk::CommonTime& t) const throw()
+      virtual bool isOffsetValid(const gpstk::CommonTime& t) const
       {return t >= startTime && t <= endTime && clockModel.N() > 1;};
 
          /** Add in the given ord to the clock model.
diff --git a/core/lib/ClockModel/ORDEpoch.hpp b/core/lib/ClockModel/ORDEpoch.hpp
index ce50612..5f028a8 100644
--- a/core/lib/ClockModel/ORDEpoch.hpp
+++ b/core/lib/ClockModel/ORDEpoch.hpp
@@ -72,7 +72,7 @@ namespace gpstk
          return *this;
       }
    
-      ORDEpoch& applyClockModel(const ClockModel& cm) throw()
+      ORDEpoch& applyClockModel(const ClockModel& cm)
       {
          if (cm.isOffsetValid(time))
          {
diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0ec9597..0699243 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -65,7 +65,6 @@ namespace gpstk
    };
 
    void WxObsData::insertObservation( const WxObservation& wx )
-      throw()
    {
       obs[wx.t] = wx;
       if (wx.t > lastTime)  lastTime=wx.t;
@@ -80,7 +79,7 @@ namespace gpstk
          && humiditySource != noWx;
    };
 
-   void WxObsData::flush(const CommonTime& t) throw()
+   void WxObsData::flush(const CommonTime& t)
    {
       // remove data from the WxObsMap
       // map is sorted by time, stop removing data at
diff --git a/core/lib/GNSSCore/WxObsMap.hpp b/core/lib/GNSSCore/WxObsMap.hpp
index d7356a6..a13982f 100644
--- a/core/lib/GNSSCore/WxObsMap.hpp
+++ b/core/lib/GNSSCore/WxObsMap.hpp
@@ -140,13 +140,13 @@ namespace gpstk
       /** Insert a WxObservation.
        * @param obs the WxObservation to insert.
        */
-      void insertObservation(const WxObservation& obs) throw();
+      void insertObservation(const WxObservation& obs);
       
       /**
        * Removes all stored #WxObservation objects older than time \a t.
        * \param t remove #WxObservation objects older than this
        */
-      void flush(const CommonTime& t) throw();
+      void flush(const CommonTime& t);
 
       /**
        * Find a #WxObservation object for time \a t.
diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index 441a3ee..689ff1b 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -120,7 +120,7 @@ namespace gpstk
    };
 
    // ----------------------------------------------------------------------------
-   bool AntexData::isValid(CommonTime& time) const throw()
+   bool AntexData::isValid(CommonTime& time) const
    {
       if(!isValid())
          return false;
diff --git a/ext/lib/Geomatics/AntexData.hpp b/ext/lib/Geomatics/AntexData.hpp
index b9edc5d..1ec03c6 100644
--- a/ext/lib/Geomatics/AntexData.hpp
+++ b/ext/lib/Geomatics/AntexData.hpp
@@ -273,7 +273,7 @@ namespace gpstk
       /// @return true if the 'valid' time limits are not given.
       /// NB. useful when adding satellite antennas for processing with a dataset;
       /// pass any time tag from the dataset.
-      bool isValid(CommonTime& time) const throw();
+      bool isValid(CommonTime& time) const;
 
       /// Generate a name from type and serial number
       std::string name(void) const throw();
diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 5c95298..7e0792e 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -223,7 +223,6 @@ namespace gpstk
    //   0 start and stop times (MJD), and number of EOPs.
    //   1 list of all times and EOPs.
    void EOPStore::dump(short detail, ostream& os) const
-      throw()
    {
       os << "EOPStore dump (" << mapMJD_EOP.size() << " entries):\n";
       os << " Time limits: [MJD " << begMJD << " - " << endMJD << "]";
diff --git a/ext/lib/Geomatics/EOPStore.hpp b/ext/lib/Geomatics/EOPStore.hpp
index c4fbbcb..0ce3c3c 100644
--- a/ext/lib/Geomatics/EOPStore.hpp
+++ b/ext/lib/Geomatics/EOPStore.hpp
@@ -123,8 +123,7 @@ namespace gpstk {
       /// @param detail determines how much detail to include in the output
       ///  0 start and stop times (MJD), and number of EOPs.
       ///  1 list of all times and EOPs.
-      void dump(short detail=0, std::ostream& s=std::cout) const
-         throw();
+      void dump(short detail=0, std::ostream& s=std::cout) const;
 
       /// Return first time (MJD) in the store.
       int getFirstTimeMJD(void) throw()
diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index bcfb9d1..428d226 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -177,7 +177,7 @@ int SatPass::addData(const Epoch tt,
 //        -2 time tag out of order, data not added
 //        -1 gap is larger than MaxGap, data not added
 //       >=0 (success) index of the added data
-int SatPass::addData(const RinexObsData& robs) throw()
+int SatPass::addData(const RinexObsData& robs)
 {
    if(robs.epochFlag != 0 && robs.epochFlag != 1)
       return -4;
@@ -804,10 +804,10 @@ unsigned int SatPass::getCount(unsigned int i) const
 }
 
 // @return the earliest time (full, including toffset) in this SatPass data
-Epoch SatPass::getFirstTime(void) const throw() { return time(0); }
+Epoch SatPass::getFirstTime(void) const { return time(0); }
 
 // @return the latest time (full, including toffset) in this SatPass data
-Epoch SatPass::getLastTime(void) const throw() { return time(spdvector.size()-1); }
+Epoch SatPass::getLastTime(void) const { return time(spdvector.size()-1); }
 
 // these allow you to get e.g. P1 or C1. NB return double not double& as above: rvalue
 double SatPass::data(unsigned int i, string type1, string type2) const
@@ -875,7 +875,7 @@ Epoch SatPass::time(unsigned int i) const
 }
 
 // return true if the input time could lie within the pass
-bool SatPass::includesTime(const Epoch& tt) const throw()
+bool SatPass::includesTime(const Epoch& tt) const
 {
    if(tt < firstTime) {
       if((firstTime-tt) > maxGap) return false;
@@ -1023,7 +1023,7 @@ ostream& operator<<(ostream& os, SatPass& sp )
 // ---------------------------- private SatPassData functions --------------------
 // add data to the arrays at timetag tt (private)
 // return >=0 ok (index of added data), -1 gap, -2 timetag out of order
-int SatPass::push_back(const Epoch tt, SatPassData& spd) throw()
+int SatPass::push_back(const Epoch tt, SatPassData& spd)
 {
    unsigned int n;
       // if this is the first point, save first time
diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index 554cf5d..dec6fcc 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -156,7 +156,7 @@ protected:
    /// @return n>=0 if data was added successfully, n is the index of the new data
    ///            -1 if a gap is found (no data is added),
    ///            -2 if time tag is out of order (no data is added)
-   int push_back(const Epoch tt, SatPassData& spd) throw();
+   int push_back(const Epoch tt, SatPassData& spd);
 
       /** get a complete SatPassData at count i
        * @throw Exception
@@ -272,7 +272,7 @@ public:
    ///        -1 if a gap is found (no data is added),
    ///        -2 if time tag is out of order (no data is added)
    ///        -3 if the satellite was not found in the RinexObsData (no data added)
-   int addData(const RinexObsData& robs) throw();
+   int addData(const RinexObsData& robs);
 
    // -------------------------- get and set routines --------------------------
    // can change ssi, lli, data, but not times,sat,dt,ngood,count
@@ -370,10 +370,10 @@ public:
    unsigned int getUserFlag(unsigned int i) const;
 
    /// @return the earliest time (full, including toffset) in this SatPass data
-   Epoch getFirstTime(void) const throw();
+   Epoch getFirstTime(void) const;
    
    /// @return the latest time (full, including toffset) in this SatPass data
-   Epoch getLastTime(void) const throw();
+   Epoch getLastTime(void) const;
 
    /// @return the earliest time of good data in this SatPass data
    Epoch getFirstGoodTime(void) const throw() {
@@ -519,7 +519,7 @@ public:
    /// @param tt        the time tag of interest
    /// @return true if the given time tag lies within the time interval covered
    /// by this object.
-   bool includesTime(const Epoch& tt) const throw();
+   bool includesTime(const Epoch& tt) const;
 
    /// Truncate all data at and after the given time.
    /// return -1 if ttag is at or before the start of this pass,
@@ -551,7 +551,7 @@ public:
    /// pttb: begin time of the overlap
    /// ptte: end time of the overlap
    bool hasOverlap(const SatPass& that, double *pdelt=NULL,
-                   Epoch *pttb=NULL, Epoch *ptte=NULL) throw()
+                   Epoch *pttb=NULL, Epoch *ptte=NULL)
    {
       if(lastTime <= that.firstTime)                           // iiiiii  aaaaaaa
          return false;
@@ -590,7 +590,7 @@ public:
    /// if the satellites match and the time limits overlap. Return the time in
    /// seconds of the overlap.
    bool hasCommonView(const SatPass& that, double *pdelt=NULL,
-                                    Epoch *pttb=NULL, Epoch *ptte=NULL) throw()
+                                    Epoch *pttb=NULL, Epoch *ptte=NULL)
    {
       if(sat != that.sat) return false;
       return hasOverlap(that, pdelt, pttb, ptte);
@@ -661,7 +661,7 @@ public:
    /// @param fmt  use time format
    /// @return string containing summary, without LF at end.
    std::string toString(std::string msg="",
-      std::string fmt="%04Y/%02m/%02d %02H:%02M:%06.3f = %04F %w %10.3g") throw()
+      std::string fmt="%04Y/%02m/%02d %02H:%02M:%06.3f = %04F %w %10.3g")
    {
       std::ostringstream os;
       os << msg << " " << sat << " N " << std::setw(4) << size()
diff --git a/ext/lib/Geomatics/SatPassIterator.cpp b/ext/lib/Geomatics/SatPassIterator.cpp
index f574978..ae0130d 100644
--- a/ext/lib/Geomatics/SatPassIterator.cpp
+++ b/ext/lib/Geomatics/SatPassIterator.cpp
@@ -98,7 +98,7 @@ SatPassIterator::SatPassIterator(vector<SatPass>& splist, bool rev, bool dbug)
 
 // -------------------------------------------------------------------------------
 // restart the iteration
-void SatPassIterator::reset(bool rev, bool dbug) throw()
+void SatPassIterator::reset(bool rev, bool dbug)
 {
    timeReverse = rev;
    debug = dbug;
diff --git a/ext/lib/Geomatics/SatPassIterator.hpp b/ext/lib/Geomatics/SatPassIterator.hpp
index f39476c..a3428c1 100644
--- a/ext/lib/Geomatics/SatPassIterator.hpp
+++ b/ext/lib/Geomatics/SatPassIterator.hpp
@@ -68,7 +68,7 @@ public:
                             bool rev=false, bool dbug=false);
 
    /// Restart the iteration, i.e. return to the initial time
-   void reset(bool rev=false, bool dbug=false) throw();
+   void reset(bool rev=false, bool dbug=false);
 
    /// Access (all of) the data for the next epoch. As long as this function
    /// returns non-zero, there is more data to be accessed.
@@ -98,7 +98,7 @@ public:
    Epoch getLastTime(void) throw() { return LastTime; }
 
    /// @return the earliest time of good data in this SatPass list
-   Epoch getFirstGoodTime(void) const throw() {
+   Epoch getFirstGoodTime(void) const {
       Epoch ttag = LastTime;
       for(int i=0; i<SPList.size(); i++)
          if(SPList[i].getFirstGoodTime() < ttag)
@@ -107,7 +107,7 @@ public:
    }
 
    /// @return the latest time of good data in this SatPass list
-   Epoch getLastGoodTime(void) const throw() {
+   Epoch getLastGoodTime(void) const {
       Epoch ttag = FirstTime;
       for(int i=0; i<SPList.size(); i++)
          if(SPList[i].getLastGoodTime() > ttag)
diff --git a/ext/lib/PosSol/PRSolutionLegacy.cpp b/ext/lib/PosSol/PRSolutionLegacy.cpp
index e13039f..f1528bf 100644
--- a/ext/lib/PosSol/PRSolutionLegacy.cpp
+++ b/ext/lib/PosSol/PRSolutionLegacy.cpp
@@ -515,7 +515,6 @@ namespace gpstk
                                                    const XvtStore<SatID>& Eph,
                                                    Matrix<double>& SVP,
                                                    ostream *pDebugStream)
-      throw()
    {
       int i,j,nsvs,N=Satellite.size();
       CommonTime tx;                // transmit time
diff --git a/ext/lib/PosSol/PRSolutionLegacy.hpp b/ext/lib/PosSol/PRSolutionLegacy.hpp
index 407067e..d877bc1 100644
--- a/ext/lib/PosSol/PRSolutionLegacy.hpp
+++ b/ext/lib/PosSol/PRSolutionLegacy.hpp
@@ -216,8 +216,7 @@ namespace gpstk
                                            const std::vector<double>& Pseudorange,
                                            const XvtStore<SatID>& Eph,
                                            Matrix<double>& SVP,
-                                           std::ostream *pDebug=NULL)
-         throw();
+                                           std::ostream *pDebug=NULL);
 
       /** Compute a single autonomous pseudorange solution.
        * Input only:
-- 
2.43.0


From 2b8f1eda7c716457728c1796a824639391ec9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 40/85] fix: functions that look up times in time-ordered maps
 are not declared throw()

---
 core/lib/GNSSCore/IonoModelStore.cpp   | 1 -
 core/lib/GNSSCore/IonoModelStore.hpp   | 3 +--
 core/lib/GNSSCore/WxObsMap.cpp         | 1 -
 core/lib/GNSSCore/WxObsMap.hpp         | 2 +-
 core/lib/GNSSEph/OrbElemStore.cpp      | 1 -
 core/lib/GNSSEph/OrbElemStore.hpp      | 3 +--
 core/lib/GNSSEph/SP3EphemerisStore.hpp | 2 +-
 core/lib/GNSSEph/TabularSatStore.hpp   | 1 -
 ext/lib/GNSSEph/OrbAlmStore.cpp        | 1 -
 ext/lib/GNSSEph/OrbAlmStore.hpp        | 3 +--
 10 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModelStore.cpp b/core/lib/GNSSCore/IonoModelStore.cpp
index 952f8e3..d1c5e71 100644
--- a/core/lib/GNSSCore/IonoModelStore.cpp
+++ b/core/lib/GNSSCore/IonoModelStore.cpp
@@ -86,7 +86,6 @@ namespace gpstk
        * \return true if the model was added, false otherwise
        */
    bool IonoModelStore::addIonoModel(const CommonTime& mt, const IonoModel& im)
-      throw()
    {
 
       if (!im.isValid())
diff --git a/core/lib/GNSSCore/IonoModelStore.hpp b/core/lib/GNSSCore/IonoModelStore.hpp
index 3879d4a..68b19e1 100644
--- a/core/lib/GNSSCore/IonoModelStore.hpp
+++ b/core/lib/GNSSCore/IonoModelStore.hpp
@@ -105,8 +105,7 @@ namespace gpstk
           * @return true if the model was added, false otherwise
           */
       bool addIonoModel( const CommonTime& mt,
-                         const IonoModel& im )
-         throw();
+                         const IonoModel& im );
 
          /** Edit the dataset, removing data outside the indicated time interval
           *
diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0699243..a893eaf 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -51,7 +51,6 @@ namespace gpstk
 {
 
    WxObservation WxObsData::getMostRecent( const CommonTime& t ) const
-      throw()
    {
       if(obs.size() == 0)
          return WxObservation();
diff --git a/core/lib/GNSSCore/WxObsMap.hpp b/core/lib/GNSSCore/WxObsMap.hpp
index a13982f..2664c8b 100644
--- a/core/lib/GNSSCore/WxObsMap.hpp
+++ b/core/lib/GNSSCore/WxObsMap.hpp
@@ -135,7 +135,7 @@ namespace gpstk
       /** Get the last WxObservation made before time t.
        * @return the WxObservation coming before time t
        */
-      WxObservation getMostRecent(const CommonTime& t) const throw();
+      WxObservation getMostRecent(const CommonTime& t) const;
       
       /** Insert a WxObservation.
        * @param obs the WxObservation to insert.
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 6e1c298..a347038 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -380,7 +380,6 @@ namespace gpstk
 //-----------------------------------------------------------------------------
 
    void OrbElemStore::edit(const CommonTime& tmin, const CommonTime& tmax)
-      throw()
    {
       for(UBEMap::iterator i = ube.begin(); i != ube.end(); i++)
       {
diff --git a/core/lib/GNSSEph/OrbElemStore.hpp b/core/lib/GNSSEph/OrbElemStore.hpp
index 57d47dc..1fb2f43 100644
--- a/core/lib/GNSSEph/OrbElemStore.hpp
+++ b/core/lib/GNSSEph/OrbElemStore.hpp
@@ -161,8 +161,7 @@ namespace gpstk
          /// @param[in] tmin defines the beginning of the time interval
          /// @param[in] tmax defines the end of the time interval
       virtual void edit(const CommonTime& tmin, 
-                        const CommonTime& tmax = CommonTime::END_OF_TIME)
-         throw(); 
+                        const CommonTime& tmax = CommonTime::END_OF_TIME);
 
          /// Clear the dataset, meaning remove all data
       virtual void clear(void) throw();
diff --git a/core/lib/GNSSEph/SP3EphemerisStore.hpp b/core/lib/GNSSEph/SP3EphemerisStore.hpp
index f4aec3f..1076742 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.hpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.hpp
@@ -228,7 +228,7 @@ namespace gpstk
           * @param[in] tmin defines the beginning of the time interval
           * @param[in] tmax defines the end of the time interval */
       virtual void edit(const CommonTime& tmin, 
-                        const CommonTime& tmax = CommonTime::END_OF_TIME) throw()
+                        const CommonTime& tmax = CommonTime::END_OF_TIME)
       {
          posStore.edit(tmin, tmax);
          clkStore.edit(tmin, tmax);
diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..cbf4b66 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -651,7 +651,6 @@ namespace gpstk
           * @param[in] tmax defines the end of the time interval */
       void edit(const CommonTime& tmin,
                 const CommonTime& tmax = CommonTime::END_OF_TIME)
-         throw()
       {
             // loop over satellites
          typename SatTable::iterator it;
diff --git a/ext/lib/GNSSEph/OrbAlmStore.cpp b/ext/lib/GNSSEph/OrbAlmStore.cpp
index 3fe6ec1..c368d36 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.cpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.cpp
@@ -488,7 +488,6 @@ namespace gpstk
     
       //-----------------------------------------------------------------------------
    void OrbAlmStore::edit(const CommonTime& tmin, const CommonTime& tmax)
-      throw()
    {
       for(SubjectAlmMap::iterator i = subjectAlmMap.begin(); i != subjectAlmMap.end(); i++)
       {
diff --git a/ext/lib/GNSSEph/OrbAlmStore.hpp b/ext/lib/GNSSEph/OrbAlmStore.hpp
index 8296739..4e5d9c7 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.hpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.hpp
@@ -151,8 +151,7 @@ namespace gpstk
       /// @param tmax defines the end of the time interval. not included
       /// [tmin, tmax)
       virtual void edit( const CommonTime& tmin,
-                         const CommonTime& tmax = CommonTime::END_OF_TIME )
-         throw();
+                         const CommonTime& tmax = CommonTime::END_OF_TIME );
 
       /// Return time system
       virtual TimeSystem getTimeSystem(void) const throw()
-- 
2.43.0


From a2ed5c2714a58593d51873145081967707ea6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 41/85] fix: OrbitEph computes Galileo and BeiDou orbits with
 their own physical constants

svXvt used the GPS gravitational constant and rotation rate for every
system, and svRelativity left out the rate of the mean motion difference
that svXvt includes.
---
 core/lib/GNSSEph/OrbitEph.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 56d9c73..5254d8d 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -56,12 +56,25 @@
 #include "QZSWeekSecond.hpp"
 #include "GPSEllipsoid.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "TimeString.hpp"
 
 using namespace std;
 
 namespace gpstk
 {
+      // The physical constants of the interface document of the system.
+   static const EllipsoidModel& ellipsoidOf(const SatID& sat)
+   {
+      static const GPSEllipsoid gps;
+      static const GalileoEllipsoid gal;
+      static const CGCS2000Ellipsoid bds;
+      if (sat.system == SatelliteSystem::Galileo)
+         return gal;
+      if (sat.system == SatelliteSystem::BeiDou)
+         return bds;
+      return gps;
+   }
 
    OrbitEph :: OrbitEph()
          : dataLoadedFlag(false),
@@ -133,7 +146,7 @@ namespace gpstk
       double xef,yef,zef,dek,dlk,div,domk,duv,drv;
       double dxp,dyp,vxef,vyef,vzef;
 
-      GPSEllipsoid ell;
+      const EllipsoidModel& ell = ellipsoidOf(satID);
       double sqrtgm = SQRT(ell.gm());
       double twoPI = 2.0e0 * PI;
       double lecc;            // eccentricity
@@ -262,22 +275,16 @@ namespace gpstk
       if(!dataLoadedFlag)
          GPSTK_THROW(InvalidRequest("Data not loaded"));
 
-      GPSEllipsoid gell;
-      CGCS2000Ellipsoid bell;
-      EllipsoidModel *ell;
-      if (satID.system==SatelliteSystem::BeiDou)
-         ell = &bell;
-      else
-         ell = &gell;
+      const EllipsoidModel& ell = ellipsoidOf(satID);
       double twoPI  = 2.0 * PI;
-      double sqrtgm = SQRT(ell->gm());
+      double sqrtgm = SQRT(ell.gm());
       double elapte = t - ctToe;
 
       // Compute A at time of interest
       double Ak = A + Adot*elapte;                 // LNAV: Adot==0
-      //double dnA = dn + 0.5*dndot*elapte;          // LNAV: dndot==0
+      double dnA = dn + 0.5*dndot*elapte;          // LNAV: dndot==0
       double Ahalf = SQRT(A);
-      double amm = (sqrtgm / (A*Ahalf)) + dn;      // Eqn specifies A0 not Ak
+      double amm = (sqrtgm / (A*Ahalf)) + dnA;     // Eqn specifies A0 not Ak
       double meana,F,G,delea;
 
       meana = M0 + elapte * amm;
-- 
2.43.0


From 7f6e9257f0206f5916f7d3a9008de19f8c8da6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 42/85] fix: BrcKeplerOrbit::svXvt applies the rates of A and
 of the mean motion

Adot entered the velocity but not the position, and dndot neither.
---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index c07d49f..b03380a 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -338,8 +338,11 @@ namespace gpstk
          //CommonTime orbEp = getOrbitEpoch();
          //elapte = t - orbEp;
 
-         // Compute mean motion
-      amm  = (sqrtgm / (A*Ahalf)) + dn;
+         // Compute A at time of interest (LNAV: Adot==0)
+      double Ak = A + Adot * elapte;
+
+         // Compute mean motion (LNAV: dndot==0)
+      amm  = (sqrtgm / (A*Ahalf)) + dn + 0.5 * dndot * elapte;
 
 
          // In-plane angles
@@ -391,7 +394,7 @@ namespace gpstk
 
          // U = updated argument of lat, R = radius, AINC = inclination
       U    = alat + du;
-      R    = A*G  + dr;
+      R    = Ak*G  + dr;
       AINC = i0 + tdrinc * elapte  +  di;
 
          //  Longitude of ascending node (ANLON)
@@ -427,7 +430,7 @@ namespace gpstk
          ( Cic  * s2al - Cis * c2al );
       domk = OMEGAdot - ell.angVelocity();
       duv = dlk*(1.e0+ 2.e0 * (Cus*c2al - Cuc*s2al) );
-      drv = A * lecc * dek * sinea - 2.e0 * dlk *
+      drv = Ak * lecc * dek * sinea - 2.e0 * dlk *
          ( Crc * s2al - Crs * c2al ) + Adot * G;
 
       dxp = drv*cosu - R*sinu*duv;
-- 
2.43.0


From 531024f325b0bdb42f344bf0c4c1b03a31af435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 43/85] fix: GloEphemeris::svClockBias takes the relativity
 correction in metres

The state vector is kept in km; svXvt converts it, svClockBias did not.
---
 core/lib/GNSSEph/GloEphemeris.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemeris.cpp b/core/lib/GNSSEph/GloEphemeris.cpp
index 3ce1885..727ccec 100644
--- a/core/lib/GNSSEph/GloEphemeris.cpp
+++ b/core/lib/GNSSEph/GloEphemeris.cpp
@@ -280,8 +280,11 @@ namespace gpstk
 
          // Auxiliar object
       Xvt sv;
-      sv.x = x;
-      sv.v = v;
+      for (int i = 0; i < 3; i++)
+      {
+         sv.x[i] = x[i]*1.e3;   // m
+         sv.v[i] = v[i]*1.e3;   // m/sec
+      }
 
          // In the GLONASS system, 'clkbias' already includes the relativistic
          // correction, therefore we must substract the late from the former.
-- 
2.43.0


From 046787cbe31eae3b12223151d34a2f5fa4d33cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 44/85] fix: the clock drift is the derivative of the clock
 polynomial

The quadratic term of the broadcast clock correction contributed only half
its rate to svClockDrift.
---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 2 +-
 core/lib/GNSSEph/OrbElem.cpp            | 2 +-
 core/lib/GNSSEph/OrbitEph.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 2e88b50..e95f5e2 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -242,7 +242,7 @@ namespace gpstk
    {
       double drift,elaptc;
       elaptc = t - getEpochTime();
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index fea9ded..be9e95f 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -167,7 +167,7 @@ namespace gpstk
       }
       double drift,elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 5254d8d..7a702fe 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -119,7 +119,7 @@ namespace gpstk
 
       double drift, elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
-- 
2.43.0


From 4716e4db7d8d11da2b0117bfebe6552fe4912965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 45/85] fix: OrbElem computes Galileo orbits with the Galileo
 constants

and no longer leaks the ellipsoid when the computation throws.
---
 core/lib/GNSSEph/OrbElem.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index be9e95f..6714317 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -43,6 +43,7 @@
 #include "OrbElem.hpp"
 #include "StringUtils.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "EllipsoidModel.hpp"
 #include "GPSEllipsoid.hpp"
 #include "YDSTime.hpp"
@@ -54,6 +55,19 @@
 
 namespace gpstk
 {
+      // The physical constants of the interface document of the system.
+   static const EllipsoidModel& ellipsoidOf(const SatID& sat)
+   {
+      static const GPSEllipsoid gps;
+      static const GalileoEllipsoid gal;
+      static const CGCS2000Ellipsoid bds;
+      if (sat.system == SatelliteSystem::Galileo)
+         return gal;
+      if (sat.system == SatelliteSystem::BeiDou)
+         return bds;
+      return gps;
+   }
+
    using namespace std;
    using namespace gpstk;
    OrbElem::OrbElem()
@@ -208,11 +222,7 @@ namespace gpstk
 
          // Several GNSSs use this algorithm.  In some cases the physical
          // constants need to be different.
-      EllipsoidModel *ell;
-      if (satID.system==SatelliteSystem::BeiDou)
-         ell = new CGCS2000Ellipsoid();
-      else
-         ell = new GPSEllipsoid();
+      const EllipsoidModel *ell = &ellipsoidOf(satID);
 
          // Compute time since ephemeris & clock epochs
       elapte = t - ctToe;
@@ -339,7 +349,6 @@ namespace gpstk
       sv.v[1] = vyef;
       sv.v[2] = vzef;
       sv.health = isHealthy() ? Xvt::Healthy : Xvt::Unhealthy;
-      delete ell;
 
       return sv;
    }
@@ -354,15 +363,10 @@ namespace gpstk
 
          // Several GNSSs use this algorithm.  In some cases the physical
          // constants need to be different.
-      EllipsoidModel *ell;
-      if (satID.system==SatelliteSystem::BeiDou)
-         ell = new CGCS2000Ellipsoid();
-      else
-         ell = new GPSEllipsoid();
+      const EllipsoidModel *ell = &ellipsoidOf(satID);
 
       double twoPI  = 2.0e0 * PI;
       double sqrtgm = SQRT(ell->gm());
-      delete ell;
       double elapte = t - ctToe;
 
          // Compute A at time of interest
-- 
2.43.0


From 0eec2f5c1757994d996ea4887725b363ac7cc319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 46/85] fix: AlmOrbit::svXvt reports the clock drift of the
 almanac

---
 core/lib/GNSSEph/AlmOrbit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSEph/AlmOrbit.cpp b/core/lib/GNSSEph/AlmOrbit.cpp
index 63a27cb..ac5f7ba 100644
--- a/core/lib/GNSSEph/AlmOrbit.cpp
+++ b/core/lib/GNSSEph/AlmOrbit.cpp
@@ -121,6 +121,7 @@ namespace gpstk
          /* compute clock corrections (no relativistic correction computed) */
       dtc = AF0 + elapt * AF1;
       sv.clkbias = dtc;
+      sv.clkdrift = AF1;
 
          /* compute the true anomaly */
       q = ::sqrt (1.0e0 - ecc * ecc);
-- 
2.43.0


From b2727174381ccfe44e746acddaba2f2ad358fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 47/85] fix: Position folds every longitude into [0,360)

---
 core/lib/GNSSCore/Position.cpp | 35 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 8f674db..2ec46e7 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -513,10 +513,9 @@ namespace gpstk
       theArray[0] = lat;
 
       theArray[1] = lon;
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] -= 360*::floor(theArray[1]/360);
+      if(theArray[1] >= 360)        // rounding of a tiny negative angle
+         theArray[1] = 0;
 
       theArray[2] = ht;
 
@@ -555,10 +554,9 @@ namespace gpstk
       theArray[1] = lon;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] -= 360*::floor(theArray[1]/360);
+      if(theArray[1] >= 360)        // rounding of a tiny negative angle
+         theArray[1] = 0;
       system = Geocentric;
 
       return *this;
@@ -591,10 +589,9 @@ namespace gpstk
       theArray[1] = phi;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] -= 360*::floor(theArray[1]/360);
+      if(theArray[1] >= 360)        // rounding of a tiny negative angle
+         theArray[1] = 0;
       system = Spherical;
 
       return *this;
@@ -1542,10 +1539,9 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb -= 360*::floor(bb/360);
+         if(bb >= 360)              // rounding of a tiny negative angle
+            bb = 0;
       }
       if(s==Geocentric || s==Spherical)
       {
@@ -1564,10 +1560,9 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb -= 360*::floor(bb/360);
+         if(bb >= 360)              // rounding of a tiny negative angle
+            bb = 0;
       }
 
       theArray[0] = a;
-- 
2.43.0


From dc1d0969f718bb9da20b19b61a4be29ee57f65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 48/85] fix: Position::convertGeodeticToGeocentric tests the
 pole by the cosine

---
 core/lib/GNSSCore/Position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 2ec46e7..491aae0 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1235,7 +1235,7 @@ namespace gpstk
          llr[0] = llr[1] = llr[2] = 0;
          return;
       }
-      if(1-::fabs(slat) < 1.e-10) {             // at the pole
+      if(::fabs(::cos(llh[0]*DEG_TO_RAD)) < 1.e-10) {   // at the pole
          if(slat < 0) llr[0] = -90;
          else         llr[0] =  90;
          llr[1] = 0.0;
-- 
2.43.0


From da162c662eaca25bc150451113e2da9da00a2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 49/85] fix: Position(const Triple&) passes the
 GeometryException on

---
 core/lib/GNSSCore/Position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 491aae0..26ad015 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -146,6 +146,7 @@ namespace gpstk
          initialize(a,b,c,s,ell,frame);
       }
       catch(GeometryException& ge) {
+         GPSTK_RETHROW(ge);
       }
    }
 
-- 
2.43.0


From 2e1a62093872d5501d912a3f4ed76455fc896919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 50/85] fix: Triple::toStdVector returns the three elements

---
 core/lib/Math/Triple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Triple.cpp b/core/lib/Math/Triple.cpp
index a08109e..a805894 100644
--- a/core/lib/Math/Triple.cpp
+++ b/core/lib/Math/Triple.cpp
@@ -99,7 +99,7 @@ namespace gpstk
    std::vector<double> Triple::toStdVector()
    {
       std::vector<double> toReturn;
-      //for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
+      for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
       return toReturn;
    }
 
-- 
2.43.0


From 83860a47e35629118043f266170909a3de7a3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 51/85] fix: Position::getIonosphericPiercePoint is right
 beyond the pole and folds the longitude

---
 core/lib/GNSSCore/Position.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 26ad015..bea0db9 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1470,11 +1470,17 @@ namespace gpstk
       double lat = Rx.theArray[0] * DEG_TO_RAD;
       double az = azim * DEG_TO_RAD;
       IPP.theArray[0] = std::asin(std::sin(lat)*std::cos(p) + std::cos(lat)*std::sin(p)*std::cos(az));
+      // atan2, not asin: beyond the pole the longitudes differ by more than 90 deg
       IPP.theArray[1] = Rx.theArray[1]*DEG_TO_RAD
-         + ::asin(::sin(p)*::sin(az)/::cos(IPP.theArray[0]));
+         + ::atan2(::sin(p)*::sin(az),
+                   ::cos(lat)*::cos(p) - ::sin(lat)*::sin(p)*::cos(az));
 
       IPP.theArray[0] *= RAD_TO_DEG;
       IPP.theArray[1] *= RAD_TO_DEG;
+      if(IPP.theArray[1] < 0)
+         IPP.theArray[1] += 360;
+      else if(IPP.theArray[1] >= 360)
+         IPP.theArray[1] -= 360;
       IPP.theArray[2] = AEarth + ionoht;
 
       // transform back
-- 
2.43.0


From 9dd6452dcb96c6ed20118515626127cf2991f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 52/85] fix: Position::convertCartesianToGeodetic handles the
 centre as documented

---
 core/lib/GNSSCore/Position.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index bea0db9..697d3c1 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1097,7 +1097,12 @@ namespace gpstk
    {
       double p,slat,N,htold,latold;
       p = SQRT(xyz[0]*xyz[0]+xyz[1]*xyz[1]);
-      if(p < Position::POSITION_TOLERANCE/5) {  // pole or origin
+      if(RSS(p,xyz[2]) <= Position::POSITION_TOLERANCE/5) {   // origin
+         llh[0] = llh[1] = 0;
+         llh[2] = -A;
+         return;
+      }
+      if(p < Position::POSITION_TOLERANCE/5) {  // pole
          llh[0] = (xyz[2] > 0 ? 90.0: -90.0);
          llh[1] = 0;                            // lon undefined, really
          llh[2] = ::fabs(xyz[2]) - A*SQRT(1.0-eccSq);
-- 
2.43.0


From 7f6fcc0e62ea0c8eb31d7c94f8891869eb748585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 53/85] fix: GPSEllipsoid::gm_km agrees with gm()

---
 core/lib/GNSSCore/GPSEllipsoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GPSEllipsoid.hpp b/core/lib/GNSSCore/GPSEllipsoid.hpp
index 06c7a9e..937d107 100644
--- a/core/lib/GNSSCore/GPSEllipsoid.hpp
+++ b/core/lib/GNSSCore/GPSEllipsoid.hpp
@@ -80,7 +80,7 @@ namespace gpstk
          /// derived from ICD-GPS-200C, 20.3.3.4.3.3 and Table 20-IV
          /// @return geocentric gravitational constant in km**3 / s**2
       virtual double gm_km() const throw()
-      { return 3.9860034e5; }
+      { return 3.986005e5; }
 
          /// defined in ICD-GPS-200C, 20.3.4.3
          /// @return Speed of light in m/s.
-- 
2.43.0


From f4cad21ecd274e670d111da792258884d4b8666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 54/85] fix: HelmertTransform sets the frame of a transformed
 Xvt and refuses short vectors

---
 core/lib/RefTime/HelmertTransform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/RefTime/HelmertTransform.hpp b/core/lib/RefTime/HelmertTransform.hpp
index 25f9bc8..bfc7a3f 100644
--- a/core/lib/RefTime/HelmertTransform.hpp
+++ b/core/lib/RefTime/HelmertTransform.hpp
@@ -106,7 +106,7 @@ namespace gpstk
       void transform(const Vector<double>& vec, const ReferenceFrame& frame,
                      Vector<double>& result)
       {
-         if(vec.size() > 3) {
+         if(vec.size() != 3) {
             InvalidRequest e("Input Vector is not of length 3");
             GPSTK_THROW(e);
          }
@@ -154,6 +154,7 @@ namespace gpstk
             result.x[0] = res[0];
             result.x[1] = res[1];
             result.x[2] = res[2];
+            result.frame = res.getReferenceFrame();
          }
          catch(Exception& e) { GPSTK_RETHROW(e); }
       }
-- 
2.43.0


From f64a8e7378ae2d56b6d6a41343b9c8e5d53c74b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 55/85] fix: tropospheric models initialise their validity
 flags in every constructor

---
 core/lib/GNSSCore/GGHeightTropModel.cpp |  5 +++--
 core/lib/GNSSCore/MOPSTropModel.cpp     |  2 ++
 core/lib/GNSSCore/MOPSTropModel.hpp     |  3 ++-
 core/lib/GNSSCore/NBTropModel.cpp       | 25 +++++++++++++++----------
 core/lib/GNSSCore/NeillTropModel.cpp    |  1 +
 core/lib/GNSSCore/NeillTropModel.hpp    |  6 ++++--
 core/lib/GNSSCore/SaasTropModel.cpp     |  8 ++++----
 7 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 5103908..62f7d3e 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -60,6 +60,7 @@ namespace gpstk
 
    GGHeightTropModel::GGHeightTropModel(void)
    {
+      valid = false;
       validWeather = false; //setWeather(20.0,980.0,50.0);
       validHeights = false; //setHeights(0.0,0.0,0.0);
       validRxHeight = false;
@@ -81,7 +82,7 @@ namespace gpstk
                                         const double& P,
                                         const double& H)
    {
-      validRxHeight = validHeights = false;
+      valid = validRxHeight = validHeights = false;
       setWeather(T,P,H);
    }
 
@@ -99,7 +100,7 @@ namespace gpstk
                                         const double hP,
                                         const double hH)
    {
-      validRxHeight = false;
+      valid = validRxHeight = validHeights = false;
       setWeather(T,P,H);
       setHeights(hT,hP,hH);
    }
diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index 98564b1..537fd17 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -114,6 +114,7 @@ namespace gpstk
                                  const double& lat,
                                  const int& doy )
    {
+      validHeight = validLat = validTime = valid = false;
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
       setDayOfYear(doy);
@@ -128,6 +129,7 @@ namespace gpstk
        */
    MOPSTropModel::MOPSTropModel(const Position& RX, const CommonTime& time)
    {
+      validHeight = validLat = validTime = valid = false;
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude());
       setDayOfYear(time);
diff --git a/core/lib/GNSSCore/MOPSTropModel.hpp b/core/lib/GNSSCore/MOPSTropModel.hpp
index 1590472..6ae0d9d 100644
--- a/core/lib/GNSSCore/MOPSTropModel.hpp
+++ b/core/lib/GNSSCore/MOPSTropModel.hpp
@@ -94,7 +94,8 @@ namespace gpstk
           * @param ht   Height of the receiver above mean sea level, in meters.
           */
       MOPSTropModel(const double& ht)
-      { setReceiverHeight(ht); };
+      { validHeight=false; validLat=false; validTime=false; valid=false;
+        setReceiverHeight(ht); };
 
 
          /** Constructor to create a MOPS trop model providing the height of
diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index d2ff523..b7bd7b4 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -158,8 +158,9 @@ namespace gpstk
 
       // Default constructor
    NBTropModel::NBTropModel(void):
-      validWeather(false), validRxLatitude(false), validDOY(false),validRxHeight(false)
-   {}
+      interpolateWeather(false), validWeather(false), validRxLatitude(false),
+      validDOY(false), validRxHeight(false)
+   { valid = false; }
 
       // Create a trop model using the minimum information: latitude and doy.
       // Interpolate the weather unless setWeather (optional) is called.
@@ -167,9 +168,10 @@ namespace gpstk
       // @param day Day of year.
    NBTropModel::NBTropModel(const double& lat,
                             const int& day)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
+      valid = false;
       setReceiverLatitude(lat);
       setDayOfYear(day);
       setWeather();
@@ -182,9 +184,10 @@ namespace gpstk
    NBTropModel::NBTropModel(const double& lat,
                             const int& day,
                             const WxObservation& wx)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
+      valid = false;
       setReceiverLatitude(lat);
       setDayOfYear(day);
       setWeather(wx);
@@ -201,9 +204,10 @@ namespace gpstk
                             const double& T,
                             const double& P,
                             const double& H)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
+      valid = false;
       setReceiverLatitude(lat);
       setDayOfYear(day);
       setWeather(T,P,H);
@@ -217,9 +221,10 @@ namespace gpstk
    NBTropModel::NBTropModel(const double& ht,
                             const double& lat,
                             const int& day)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
+      valid = false;
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
       setDayOfYear(day);
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 5380016..999a2b7 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -96,6 +96,7 @@ namespace gpstk
    NeillTropModel::NeillTropModel( const Position& RX,
                                    const CommonTime& time )
    {
+      validHeight = validLat = validDOY = valid = false;
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude( ));
       setDayOfYear(time);
diff --git a/core/lib/GNSSCore/NeillTropModel.hpp b/core/lib/GNSSCore/NeillTropModel.hpp
index 341a909..50b5486 100644
--- a/core/lib/GNSSCore/NeillTropModel.hpp
+++ b/core/lib/GNSSCore/NeillTropModel.hpp
@@ -99,7 +99,8 @@ namespace gpstk
          /// @param ht   Height of the receiver above mean sea level, in
          ///             meters.
       NeillTropModel(const double& ht)
-      { setReceiverHeight(ht); };
+      { validHeight=false; validLat=false; validDOY=false; valid=false;
+        setReceiverHeight(ht); };
 
 
          /// Constructor to create a Neill trop model providing the height of
@@ -113,7 +114,8 @@ namespace gpstk
       NeillTropModel( const double& ht,
                       const double& lat,
                       const int& doy )
-      { setReceiverHeight(ht); setReceiverLatitude(lat); setDayOfYear(doy); };
+      { validHeight=false; validLat=false; validDOY=false; valid=false;
+        setReceiverHeight(ht); setReceiverLatitude(lat); setDayOfYear(doy); };
 
 
          /// Constructor to create a Neill trop model providing the position
diff --git a/core/lib/GNSSCore/SaasTropModel.cpp b/core/lib/GNSSCore/SaasTropModel.cpp
index 39610ee..7d2f715 100644
--- a/core/lib/GNSSCore/SaasTropModel.cpp
+++ b/core/lib/GNSSCore/SaasTropModel.cpp
@@ -105,6 +105,7 @@ namespace gpstk
       // Default constructor
    SaasTropModel::SaasTropModel(void)
    {
+      valid = false;
       validWeather = false;
       validRxLatitude = false;
       validDOY = false;
@@ -118,8 +119,7 @@ namespace gpstk
    SaasTropModel::SaasTropModel(const double& lat,
                                 const int& day)
    {
-      validWeather = false;
-      validRxHeight = false;
+      valid = validWeather = validRxLatitude = validDOY = validRxHeight = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
    } // end SaasTropModel::SaasTropModel
@@ -132,7 +132,7 @@ namespace gpstk
                                 const int& day,
                                 const WxObservation& wx)
    {
-      validRxHeight = false;
+      valid = validWeather = validRxLatitude = validDOY = validRxHeight = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
       SaasTropModel::setWeather(wx);
@@ -150,7 +150,7 @@ namespace gpstk
                                 const double& P,
                                 const double& H)
    {
-      validRxHeight = false;
+      valid = validWeather = validRxLatitude = validDOY = validRxHeight = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
       SaasTropModel::setWeather(T,P,H);
-- 
2.43.0


From abeb4571f3a0a61583d3d0bb73dc0b9bd1eba6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 56/85] fix: GCAT and Neill models refuse the wet zenith delay
 while invalid

---
 core/lib/GNSSCore/GCATTropModel.cpp  | 11 +++++++++++
 core/lib/GNSSCore/GCATTropModel.hpp  |  3 +--
 core/lib/GNSSCore/NeillTropModel.cpp | 11 +++++++++++
 core/lib/GNSSCore/NeillTropModel.hpp |  3 +--
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/GCATTropModel.cpp b/core/lib/GNSSCore/GCATTropModel.cpp
index 3444470..bc5a451 100644
--- a/core/lib/GNSSCore/GCATTropModel.cpp
+++ b/core/lib/GNSSCore/GCATTropModel.cpp
@@ -186,6 +186,17 @@ namespace gpstk
    }
 
 
+      /* Compute and return the zenith delay for wet component of the
+       * troposphere
+       */
+   double GCATTropModel::wet_zenith_delay(void) const
+   {
+      THROW_IF_INVALID();
+
+      return 0.1;
+   }
+
+
       /* Compute and return the mapping function of the troposphere
        * @param elevation  Elevation of satellite as seen at receiver,
        *                   in degrees
diff --git a/core/lib/GNSSCore/GCATTropModel.hpp b/core/lib/GNSSCore/GCATTropModel.hpp
index f523b1e..e78b9ef 100644
--- a/core/lib/GNSSCore/GCATTropModel.hpp
+++ b/core/lib/GNSSCore/GCATTropModel.hpp
@@ -180,8 +180,7 @@ namespace gpstk
           *  troposphere.
           * @throw InvalidTropModel
           */
-      virtual double wet_zenith_delay(void) const
-      { return 0.1; };
+      virtual double wet_zenith_delay(void) const;
 
 
          /** Compute and return the mapping function for both components of
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 999a2b7..6f66c50 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -336,6 +336,17 @@ namespace gpstk
    }
 
 
+      /* Compute and return the zenith delay for wet component of the
+       * troposphere
+       */
+   double NeillTropModel::wet_zenith_delay(void) const
+   {
+      THROW_IF_INVALID();
+
+      return 0.1;
+   }
+
+
       // Compute and return the mapping function for dry component of
       // the troposphere.
       //
diff --git a/core/lib/GNSSCore/NeillTropModel.hpp b/core/lib/GNSSCore/NeillTropModel.hpp
index 50b5486..8dbd2ae 100644
--- a/core/lib/GNSSCore/NeillTropModel.hpp
+++ b/core/lib/GNSSCore/NeillTropModel.hpp
@@ -263,8 +263,7 @@ namespace gpstk
           * the troposphere.
           * @throw InvalidTropModel
           */
-      virtual double wet_zenith_delay(void) const
-      { return 0.1; };           // Returns a nominal value
+      virtual double wet_zenith_delay(void) const;           // Returns a nominal value
 
 
          /** Compute and return the mapping function for dry component of
-- 
2.43.0


From cede95417541fd13eff5308d762970cc983a723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 57/85] fix: GGHeightTropModel::dry_zenith_delay uses the
 height of the temperature

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 62f7d3e..1212e69 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -162,7 +162,7 @@ namespace gpstk
    {
       THROW_IF_INVALID_DETAILED();
       double hrate=6.5e-3;
-      double Ts=temp+hrate*height;
+      double Ts=temp+hrate*htemp;
       double em=978.77/(2.8704e4*hrate);
       double Tp=Ts-hrate*hpress;
       double ps=press*std::pow(Ts/Tp,em)/1000.0;
-- 
2.43.0


From 7df1c0f02d496807b28a371324f673a4664dae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 58/85] fix: NBTropModel converts the humidity of a weather
 observation once, clamps it, and stays invalid after bad weather

---
 core/lib/GNSSCore/NBTropModel.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index b7bd7b4..25afcc5 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -382,10 +382,11 @@ namespace gpstk
                                 const double& H)
    {
       interpolateWeather=false;
+      valid = validWeather = false;    // until the weather is accepted
       TropModel::setWeather(T,P,H);
             // humid actually stores water vapor partial pressure
       double th=300./temp;
-      humid = 2.409e9*H*th*th*th*th*std::exp(-22.64*th);
+      humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
       validWeather = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
 
@@ -400,9 +401,7 @@ namespace gpstk
       try
       {
          TropModel::setWeather(wx);
-            // humid actually stores vapor partial pressure
-         double th=300./temp;
-         humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
+            // TropModel::setWeather() has called setWeather(T,P,H)
          validWeather = true;
          valid = validWeather && validRxHeight && validRxLatitude && validDOY;
       }
-- 
2.43.0


From 8da891086c7a9a53f940855455aafae8ce29ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 59/85] fix: NBTropModel interpolates the weather again when
 latitude or day change

---
 core/lib/GNSSCore/NBTropModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index 25afcc5..6d69aed 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -444,7 +444,7 @@ namespace gpstk
       height = ht;
       validRxHeight = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
-      if(!validWeather && validRxLatitude && validDOY)
+      if((!validWeather || interpolateWeather) && validRxLatitude && validDOY)
          setWeather();
    }
 
@@ -455,7 +455,7 @@ namespace gpstk
       latitude = lat;
       validRxLatitude = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
-      if(!validWeather && validRxLatitude && validDOY)
+      if((!validWeather || interpolateWeather) && validRxLatitude && validDOY)
          setWeather();
    }
 
@@ -466,7 +466,7 @@ namespace gpstk
       doy = d;
       if (doy > 0 && doy < 367) validDOY=true; else validDOY = false;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
-      if(!validWeather && validRxLatitude && validDOY)
+      if((!validWeather || interpolateWeather) && validRxLatitude && validDOY)
          setWeather();
    }
    
-- 
2.43.0


From 022f2e0bab6d946e32e4a536377deb9a2167149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 60/85] fix: SaasTropModel::setWeather refuses an incomplete
 weather observation

---
 core/lib/GNSSCore/SaasTropModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSCore/SaasTropModel.cpp b/core/lib/GNSSCore/SaasTropModel.cpp
index 7d2f715..c27a6ca 100644
--- a/core/lib/GNSSCore/SaasTropModel.cpp
+++ b/core/lib/GNSSCore/SaasTropModel.cpp
@@ -376,6 +376,8 @@ namespace gpstk
    {
       try
       {
+         if(!wx.isAllValid())
+            GPSTK_THROW(InvalidParameter("Invalid weather data."));
          SaasTropModel::setWeather(wx.temperature,wx.pressure,wx.humidity);
       }
       catch(InvalidParameter& e)
-- 
2.43.0


From d0ebf76b20c2f631efa66b714b452c3d5d6a2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 61/85] fix: setAllParameters of the MOPS and Neill models sets
 the height, not the latitude, to the height

---
 core/lib/GNSSCore/MOPSTropModel.cpp  | 2 +-
 core/lib/GNSSCore/NeillTropModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index 537fd17..dc93b73 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -476,7 +476,7 @@ namespace gpstk
       validTime = true;
       MOPSLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      MOPSLat = rxPos.getHeight();
+      MOPSHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 6f66c50..9a6c227 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -574,7 +574,7 @@ namespace gpstk
       validDOY = true;
       NeillLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      NeillLat = rxPos.getHeight();
+      NeillHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
-- 
2.43.0


From acfa203941e18d62fbed031efc6be78a3037cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 62/85] fix: NBTropModel shifts the seasons by half a year in
 the southern hemisphere

---
 core/lib/GNSSCore/NBTropModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index 6d69aed..ff5af94 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -119,6 +119,8 @@ namespace gpstk
    {
       const double *pave = NULL, *pamp = NULL;
       double ret, day=double(doy);
+      if(lat < 0)                      // southern hemisphere: half a year later
+         day += 365.25/2.;
 
          // assign pointer to the right array
       switch(entry) {
-- 
2.43.0


From 95829ef448715ea3823f980473145622b552c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 63/85] fix: GlobalTropModel accepts parameters that equal the
 unset or earlier ones

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 58e94a4..6030185 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -338,9 +338,9 @@ namespace gpstk
    {
       try {
          double p;
-         p = RX.getAltitude();         if(p != height) setReceiverHeight(p);
-         p = RX.getGeodeticLatitude(); if(p != latitude) setReceiverLatitude(p);
-         p = RX.getLongitude();        if(p != longitude) setReceiverLongitude(p);
+         p = RX.getAltitude();         setReceiverHeight(p);
+         p = RX.getGeodeticLatitude(); setReceiverLatitude(p);
+         p = RX.getLongitude();        setReceiverLongitude(p);
       }
       catch(GeometryException& e) {
          validHeight = validLat = valid = false;
@@ -557,7 +557,7 @@ namespace gpstk
    // @param ht   Height of the receiver above mean sea level, in meters.
    void GlobalTropModel::setReceiverHeight(const double& ht)
    {
-      if(height != ht) {
+      if(!validHeight || height != ht) {
          height = ht; 
          validHeight = true;
          validCoeff = false;
@@ -570,7 +570,7 @@ namespace gpstk
    // @param lat  Latitude of receiver, in degrees.
    void GlobalTropModel::setReceiverLatitude(const double& lat)
    {
-      if(latitude != lat) {
+      if(!validLat || latitude != lat) {
          latitude = lat;
          validLat = true;
          validCoeff = false;
@@ -583,7 +583,7 @@ namespace gpstk
    // @param lat  Longitude of receiver, in degrees East.
    void GlobalTropModel::setReceiverLongitude(const double& lon)
    {
-      if(longitude != lon) {
+      if(!validLon || longitude != lon) {
          longitude = lon;
          validLon = true;
          validCoeff = false;
@@ -597,7 +597,7 @@ namespace gpstk
    void GlobalTropModel::setTime(const double& mjd)
    {
       double df(TWO_PI*(mjd - 44266.0)/365.25);       // -44239 + 1 - 28
-      if(df != dayfactor) {
+      if(!validDay || df != dayfactor) {
          dayfactor = df;
          validDay = true;
          validCoeff = false;
-- 
2.43.0


From d02be30f6ce1a1ba94f337695163fc5af4b79506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 64/85] fix: every constructor of GlobalTropModel sets the
 default humidity

---
 core/lib/GNSSCore/GlobalTropModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 28b3e09..83fed4d 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -113,6 +113,8 @@ namespace gpstk
       {
          validCoeff = validHeight = validLat = validLon = validDay = valid =
             false;
+         undul = 0.0;
+         humid = 50.0;
          setReceiverHeight(ht);
          setReceiverLatitude(lat);
          setReceiverLongitude(lon);
@@ -126,6 +128,8 @@ namespace gpstk
       GlobalTropModel(const Position& RX, const CommonTime& time)
       {
          validCoeff = validHeight = validLat = validLon = validDay = valid = false;
+         undul = 0.0;
+         humid = 50.0;
          setReceiverHeight(RX.getAltitude());
          setReceiverLatitude(RX.getGeodeticLatitude());
          setReceiverLongitude(RX.getLongitude());
-- 
2.43.0


From 4dd2a0160ef582bd0abd4a5328acc79c7bc53307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 65/85] fix: GlobalTropModel refuses the wet zenith delay while
 invalid and stays invalid above its height limit

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 1 +
 core/lib/GNSSCore/GlobalTropModel.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 6030185..62be5de 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -374,6 +374,7 @@ namespace gpstk
    // the troposphere. Ref. Leick, 3rd ed, pg 197, Leick, 4th ed, pg 482.
    double GlobalTropModel::wet_zenith_delay() const
    {
+      try { testValidity(); } catch(InvalidTropModel& e) { GPSTK_RETHROW(e); }
       double T = temp + CELSIUS_TO_KELVIN;
       double pwv = 0.01 * humid * ::exp(-37.2465 + (0.213166-0.000256908*T)*T);
       return (0.0122 + 0.00943 * pwv);
diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 83fed4d..a87b9c4 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -345,7 +345,10 @@ namespace gpstk
                validCoeff = true;
                getGPT(press,temp,undul);
             }
-         } catch(Exception& e) { GPSTK_RETHROW(e); }
+         } catch(Exception& e) {
+            valid = validCoeff = false;
+            GPSTK_RETHROW(e);
+         }
       }
 
    }; // end class GlobalTropModel
-- 
2.43.0


From 2e83aebd1732417addad0d0efd80408cd83e8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 66/85] fix: IonoModel::getCorrection folds the local time by
 as many days as needed

---
 core/lib/GNSSCore/IonoModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index 39ff98b..c74bee3 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -138,9 +138,10 @@ namespace gpstk
          iPER = 72000.0;
 
       double t = 43200.0 * lambda_i + YDSTime(time).sod;
-      if (t >= 86400.0)
+      // The longitude is 0 to 360 degrees, so that more than one day may be due.
+      while (t >= 86400.0)
          t -= 86400.0;
-      if (t < 0)
+      while (t < 0)
          t += 86400.0;
 
       double x = TWO_PI * (t - 50400.0) / iPER; // x is in radians
-- 
2.43.0


From 2de5ab12add6480b55e77b0553e3f4ff28d4cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:08 +0000
Subject: [PATCH 67/85] fix: ranges at transmit time without a pseudorange
 accept receivers in any coordinate system

---
 core/lib/GNSSEph/EphemerisRange.cpp | 4 +++-
 core/lib/ORD/ord.cpp                | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EphemerisRange.cpp b/core/lib/GNSSEph/EphemerisRange.cpp
index a00ec39..be4351d 100644
--- a/core/lib/GNSSEph/EphemerisRange.cpp
+++ b/core/lib/GNSSEph/EphemerisRange.cpp
@@ -160,8 +160,10 @@ namespace gpstk
    {
       try {
          gpstk::GPSEllipsoid gm;
+         Position trx(Rx);
+         trx.asECEF();
          svPosVel = Eph.getXvt(sat, tr_nom);
-         double pr = svPosVel.preciseRho(Rx, gm);
+         double pr = svPosVel.preciseRho(trx, gm);
          return ComputeAtTransmitTime(tr_nom, pr, Rx, sat, Eph);
       }
       catch(gpstk::Exception& e) {
diff --git a/core/lib/ORD/ord.cpp b/core/lib/ORD/ord.cpp
index 9eb2aaa..37a5fc3 100644
--- a/core/lib/ORD/ord.cpp
+++ b/core/lib/ORD/ord.cpp
@@ -240,8 +240,10 @@ double RawRange4(const gpstk::Position& rxLoc, const gpstk::SatID& satId,
         const gpstk::XvtStore<gpstk::SatID>& ephemeris, gpstk::Xvt& svXvt) {
     try {
        gpstk::GPSEllipsoid gm;
+       Position trx(rxLoc);
+       trx.asECEF();
        Xvt svPosVel = ephemeris.getXvt(satId, time);
-       double pr = svPosVel.preciseRho(rxLoc, gm);
+       double pr = svPosVel.preciseRho(trx, gm);
        return RawRange2(pr, rxLoc, satId, time, ephemeris, svXvt);
     }
     catch(gpstk::Exception& e) {
-- 
2.43.0


From 47882027992e25ec8ece3d88f43e336f55f9a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 68/85] fix: ranges at the satellite's transmit time add the
 satellite clock to the time of flight, rotate the velocity and set the
 transmit time

---
 core/lib/GNSSEph/EphemerisRange.cpp | 16 +++++++++++-----
 core/lib/ORD/ord.cpp                | 15 ++++++++++-----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/core/lib/GNSSEph/EphemerisRange.cpp b/core/lib/GNSSEph/EphemerisRange.cpp
index be4351d..81a39c6 100644
--- a/core/lib/GNSSEph/EphemerisRange.cpp
+++ b/core/lib/GNSSEph/EphemerisRange.cpp
@@ -184,6 +184,7 @@ namespace gpstk
          Position trx(rx);
          trx.asECEF();
 
+         transmit = tt_nom;
          svPosVel = eph.getXvt(sat, tt_nom);
 
          // compute rotation angle in the time of signal transit
@@ -196,11 +197,16 @@ namespace gpstk
          // very nearly the same, and multiplying by angVel/c should make the angle
          // of rotation very nearly identical.
          GPSEllipsoid ell;
-         double range(pr/ell.c() - svPosVel.clkbias - svPosVel.relcorr);
-         double rotation_angle = -ell.angVelocity() * range;
-         svPosVel.x[0] = svPosVel.x[0] - svPosVel.x[1] * rotation_angle;
-         svPosVel.x[1] = svPosVel.x[1] + svPosVel.x[0] * rotation_angle;
-         svPosVel.x[2] = svPosVel.x[2];
+         double range(pr/ell.c() + svPosVel.clkbias + svPosVel.relcorr);
+         double wt = ell.angVelocity() * range;
+         double sx =  ::cos(wt)*svPosVel.x[0] + ::sin(wt)*svPosVel.x[1];
+         double sy = -::sin(wt)*svPosVel.x[0] + ::cos(wt)*svPosVel.x[1];
+         svPosVel.x[0] = sx;
+         svPosVel.x[1] = sy;
+         sx =  ::cos(wt)*svPosVel.v[0] + ::sin(wt)*svPosVel.v[1];
+         sy = -::sin(wt)*svPosVel.v[0] + ::cos(wt)*svPosVel.v[1];
+         svPosVel.v[0] = sx;
+         svPosVel.v[1] = sy;
 
          rawrange = trx.slantRange(svPosVel.x);
          updateCER(trx);
diff --git a/core/lib/ORD/ord.cpp b/core/lib/ORD/ord.cpp
index 37a5fc3..fb84e4e 100644
--- a/core/lib/ORD/ord.cpp
+++ b/core/lib/ORD/ord.cpp
@@ -223,11 +223,16 @@ double RawRange3(double pseudorange, const gpstk::Position& rxLoc,
     // very nearly the same, and multiplying by angVel/c should make the angle
     // of rotation very nearly identical.
     GPSEllipsoid ell;
-    double range(pseudorange/ell.c() - svPosVel.clkbias - svPosVel.relcorr);
-    double rotation_angle = -ell.angVelocity() * range;
-    svPosVel.x[0] = svPosVel.x[0] - svPosVel.x[1] * rotation_angle;
-    svPosVel.x[1] = svPosVel.x[1] + svPosVel.x[0] * rotation_angle;
-    // svPosVel.x[2] = svPosVel.x[2];  // ?? Reassign for readability ??
+    double range(pseudorange/ell.c() + svPosVel.clkbias + svPosVel.relcorr);
+    double wt = ell.angVelocity() * range;
+    double sx =  ::cos(wt) * svPosVel.x[0] + ::sin(wt) * svPosVel.x[1];
+    double sy = -::sin(wt) * svPosVel.x[0] + ::cos(wt) * svPosVel.x[1];
+    svPosVel.x[0] = sx;
+    svPosVel.x[1] = sy;
+    sx =  ::cos(wt) * svPosVel.v[0] + ::sin(wt) * svPosVel.v[1];
+    sy = -::sin(wt) * svPosVel.v[0] + ::cos(wt) * svPosVel.v[1];
+    svPosVel.v[0] = sx;
+    svPosVel.v[1] = sy;
 
     double rawrange = trx.slantRange(svPosVel.x);
 
-- 
2.43.0


From aeecfb9333d209462ec0816d4c0b63cb6f198472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 69/85] fix: CNavGGTO reads A0 at its place and the unsigned
 quantities of message type 35 as such

---
 ext/lib/GNSSEph/CNavGGTO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavGGTO.cpp b/ext/lib/GNSSEph/CNavGGTO.cpp
index 8639e47..9ad69c3 100644
--- a/ext/lib/GNSSEph/CNavGGTO.cpp
+++ b/ext/lib/GNSSEph/CNavGGTO.cpp
@@ -106,10 +106,10 @@ namespace gpstk
       satID     = message35.getsatSys();
       ctXmit    = message35.getTransmitTime();
 
-      TGGTO     = message35.asLong(127,16,16);
-      WNGGTO    = message35.asLong(143,13, 1);
-      GNSS_ID   = message35.asLong(156, 3, 1); 
-      A0GGTO    = message35.asSignedDouble(158,16,-35);
+      TGGTO     = message35.asUnsignedLong(127,16,16);
+      WNGGTO    = message35.asUnsignedLong(143,13, 1);
+      GNSS_ID   = message35.asUnsignedLong(156, 3, 1); 
+      A0GGTO    = message35.asSignedDouble(159,16,-35);
       A1GGTO    = message35.asSignedDouble(175,13,-51);
       A2GGTO    = message35.asSignedDouble(188, 7,-68);
 
-- 
2.43.0


From ab52c7f907f490150a88cef14129d04df65a2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 70/85] fix: group delays a message type 30 marks as not
 available are zero, whatever was loaded before

---
 ext/lib/GNSSEph/CNavISC.cpp       | 5 +++++
 ext/lib/GNSSEph/OrbSysGpsC_30.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ext/lib/GNSSEph/CNavISC.cpp b/ext/lib/GNSSEph/CNavISC.cpp
index dca6e1a..5c03e5c 100644
--- a/ext/lib/GNSSEph/CNavISC.cpp
+++ b/ext/lib/GNSSEph/CNavISC.cpp
@@ -138,6 +138,7 @@ namespace gpstk
                                           
       unsigned long avail = message30.asUnsignedLong(127,13,1);
       avail_Tgd = false;
+      Tgd = 0.0;
       if (avail!=testAvail)
       {
          avail_Tgd = true;
@@ -146,6 +147,7 @@ namespace gpstk
 
       avail = message30.asUnsignedLong(140,13,1);
       avail_L1CA = false;
+      ISC_L1CA = 0.0;
       if (avail!=testAvail)
       {
          avail_L1CA = true;
@@ -154,6 +156,7 @@ namespace gpstk
       
       avail = message30.asUnsignedLong(153,13,1);
       avail_L2C = false;
+      ISC_L2C = 0.0;
       if (avail!=testAvail)
       {
          avail_L2C = true;
@@ -162,6 +165,7 @@ namespace gpstk
       
       avail = message30.asUnsignedLong(166,13,1);
       avail_L5I5 = false;
+      ISC_L5I5 = 0.0;
       if (avail!=testAvail)
       {
          avail_L5I5 = true;
@@ -170,6 +174,7 @@ namespace gpstk
 
       avail = message30.asUnsignedLong(179,13,1);
       avail_L5Q5 = false;
+      ISC_L5Q5 = 0.0;
       if (avail!=testAvail)
       {
          avail_L5Q5 = true;
diff --git a/ext/lib/GNSSEph/OrbSysGpsC_30.cpp b/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
index 98034ee..22c25da 100644
--- a/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
@@ -153,6 +153,7 @@ namespace gpstk
                                           
       unsigned long avail = msg.asUnsignedLong(127,13,1);
       avail_Tgd = false;
+      Tgd = 0.0;
       if (avail!=testAvail)
       {
          avail_Tgd = true;
@@ -161,6 +162,7 @@ namespace gpstk
 
       avail = msg.asUnsignedLong(140,13,1);
       avail_L1CA = false;
+      ISC_L1CA = 0.0;
       if (avail!=testAvail)
       {
          avail_L1CA = true;
@@ -169,6 +171,7 @@ namespace gpstk
       
       avail = msg.asUnsignedLong(153,13,1);
       avail_L2C = false;
+      ISC_L2C = 0.0;
       if (avail!=testAvail)
       {
          avail_L2C = true;
@@ -177,6 +180,7 @@ namespace gpstk
       
       avail = msg.asUnsignedLong(166,13,1);
       avail_L5I5 = false;
+      ISC_L5I5 = 0.0;
       if (avail!=testAvail)
       {
          avail_L5I5 = true;
@@ -185,6 +189,7 @@ namespace gpstk
 
       avail = msg.asUnsignedLong(179,13,1);
       avail_L5Q5 = false;
+      ISC_L5Q5 = 0.0;
       if (avail!=testAvail)
       {
          avail_L5Q5 = true;
-- 
2.43.0


From b41303ba4a38c24de4da2a2328266ff29e51d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 71/85] fix: isSameData of message type 30 compares ISC_L5Q5

---
 ext/lib/GNSSEph/CNavISC.cpp       | 2 +-
 ext/lib/GNSSEph/OrbSysGpsC_30.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavISC.cpp b/ext/lib/GNSSEph/CNavISC.cpp
index 5c03e5c..557b7d2 100644
--- a/ext/lib/GNSSEph/CNavISC.cpp
+++ b/ext/lib/GNSSEph/CNavISC.cpp
@@ -102,7 +102,7 @@ namespace gpstk
          if (ISC_L1CA != rp->ISC_L1CA) return false;
          if (ISC_L2C  != rp->ISC_L2C)  return false;
          if (ISC_L5I5 != rp->ISC_L5I5) return false;
-         if (ISC_L5I5 != rp->ISC_L5I5) return false;
+         if (ISC_L5Q5 != rp->ISC_L5Q5) return false;
 
          for (int i=0;i<4;i++)
          {
diff --git a/ext/lib/GNSSEph/OrbSysGpsC_30.cpp b/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
index 22c25da..9454823 100644
--- a/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
@@ -121,7 +121,7 @@ namespace gpstk
       if (ISC_L1CA != p->ISC_L1CA) return false;
       if (ISC_L2C  != p->ISC_L2C)  return false;
       if (ISC_L5I5 != p->ISC_L5I5) return false;
-      if (ISC_L5I5 != p->ISC_L5I5) return false;
+      if (ISC_L5Q5 != p->ISC_L5Q5) return false;
 
       for (int i=0;i<4;i++)
       {
-- 
2.43.0


From cbd29ead7de27bdcb5b5cc37161730be8caff1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 72/85] fix: the constructor of CNavReducedAlm decodes the
 almanac type it is given

---
 ext/lib/GNSSEph/CNavReducedAlm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/CNavReducedAlm.cpp b/ext/lib/GNSSEph/CNavReducedAlm.cpp
index 631a1d2..a3bbca7 100755
--- a/ext/lib/GNSSEph/CNavReducedAlm.cpp
+++ b/ext/lib/GNSSEph/CNavReducedAlm.cpp
@@ -70,7 +70,7 @@ namespace gpstk
        L5HEALTH(1),
        dataLoadedFlag(0)
    {
-      loadData(atCNAV2, ctAlm, pnb, startBit);
+      loadData(almType, ctAlm, pnb, startBit);
    }
 
    bool CNavReducedAlm::isSameData(const CNavReducedAlm& right) const      
-- 
2.43.0


From 884acab0946efbd32dd382f5911bea3ce19a7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 73/85] fix: the root of the semi-major axis of CNAV almanacs
 is unsigned

---
 ext/lib/GNSSEph/CNavMidiAlm.cpp | 2 +-
 ext/lib/GNSSEph/OrbAlmGen.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavMidiAlm.cpp b/ext/lib/GNSSEph/CNavMidiAlm.cpp
index b48f875..4b17b24 100755
--- a/ext/lib/GNSSEph/CNavMidiAlm.cpp
+++ b/ext/lib/GNSSEph/CNavMidiAlm.cpp
@@ -178,7 +178,7 @@ namespace gpstk
       e        = pnb.asUnsignedDouble(46+offsetBits,11,-16);
       di       = pnb.asDoubleSemiCircles(57+offsetBits,11,-14);
       OMEGAdot = pnb.asDoubleSemiCircles(68+offsetBits,11,-33);
-      sqrtA    = pnb.asSignedDouble(79+offsetBits,17,-4);
+      sqrtA    = pnb.asUnsignedDouble(79+offsetBits,17,-4);
       OMEGA0   = pnb.asDoubleSemiCircles(96+offsetBits,16,-15);
       w        = pnb.asDoubleSemiCircles(112+offsetBits,16,-15);
       M0       = pnb.asDoubleSemiCircles(128+offsetBits,16,-15);
diff --git a/ext/lib/GNSSEph/OrbAlmGen.cpp b/ext/lib/GNSSEph/OrbAlmGen.cpp
index 11fe45f..cffbe37 100644
--- a/ext/lib/GNSSEph/OrbAlmGen.cpp
+++ b/ext/lib/GNSSEph/OrbAlmGen.cpp
@@ -765,7 +765,7 @@ namespace gpstk
       ecc = msg.asUnsignedDouble(157, 11, -16);
       deltai = msg.asDoubleSemiCircles(168, 11, -14);
       OMEGAdot = msg.asDoubleSemiCircles(179, 11, -33);
-      AHalf = msg.asSignedDouble(190, 17, -4);
+      AHalf = msg.asUnsignedDouble(190, 17, -4);
       OMEGA0 = msg.asDoubleSemiCircles(207, 16, -15);
       w = msg.asDoubleSemiCircles(223, 16, -15);
       M0 = msg.asDoubleSemiCircles(239, 16, -15);
-- 
2.43.0


From 6a4f5cf11705e5f1c0fec08dea68502d131b2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 74/85] fix: the PRN in a CNAV message type 37 has six bits

---
 ext/lib/GNSSEph/CNavMidiAlm.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavMidiAlm.cpp b/ext/lib/GNSSEph/CNavMidiAlm.cpp
index 4b17b24..41101ac 100755
--- a/ext/lib/GNSSEph/CNavMidiAlm.cpp
+++ b/ext/lib/GNSSEph/CNavMidiAlm.cpp
@@ -148,9 +148,9 @@ namespace gpstk
       satID = pnb.getsatSys();
 
          // CNAV and CNAV-2 use the same bit layout, but different starting
-         // locations. (This is true except for the transmit (xmit) SV.)  Therefore, 
-         // we'll use the CNAV-2 starting bit indices that begin at bit 14 
-         // (zero index).  If CNAV, then we will apply an offset that 
+         // locations, and PRN fields of six bits (CNAV) or eight bits (CNAV-2).
+         // Therefore, we'll use the CNAV-2 starting bit indices that begin
+         // at bit 14 (zero index).  If CNAV, then we will apply an offset that
          // represents the difference between the CNAV (127, index 0) and
          // CNAV-2 starting locations.
       unsigned offsetBits = 0;                  
@@ -167,9 +167,12 @@ namespace gpstk
       ctAlmEpoch = GPSWeekSecond(wn,(double) toaSOW);
       ctAlmEpoch.setTimeSystem(TimeSystem::GPS);
 
-      prnId = pnb.asUnsignedLong(35+offsetBits,8,1);
+      prnId = pnb.asUnsignedLong(35+offsetBits,prnLen,1);
       subjSv = SatID(prnId, SatelliteSystem::GPS);
 
+         // Everything beyond the PRN of the subject SV is two bits earlier in CNAV
+      if (almType==matCNAV) offsetBits -= 2;
+
       unsigned nextStart = 43 + offsetBits;
       L1HEALTH = (unsigned short) pnb.asUnsignedLong(nextStart,1,1);
       L2HEALTH = (unsigned short) pnb.asUnsignedLong(nextStart+1,1,1);
-- 
2.43.0


From 294b8162fb91f363e66e417e8102d090f8a01265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 75/85] fix: an almanac received on L5 is healthy when its L5
 health bit is clear

---
 ext/lib/GNSSEph/OrbAlmGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/OrbAlmGen.cpp b/ext/lib/GNSSEph/OrbAlmGen.cpp
index cffbe37..b996997 100644
--- a/ext/lib/GNSSEph/OrbAlmGen.cpp
+++ b/ext/lib/GNSSEph/OrbAlmGen.cpp
@@ -786,7 +786,7 @@ namespace gpstk
       if (oidr.band==CarrierBand::L5 &&
           !(health & 0x01))
       {
-         setHealthy(false); 
+         setHealthy(true); 
       }
       ctToe = GPSWeekSecond(wna,toa,TimeSystem::GPS); 
 
-- 
2.43.0


From 8a06dd18442673bf0727c057deb5414ce6017513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 76/85] fix: loadWeekNumber keeps the week and time of week of
 a BeiDou epoch

---
 ext/lib/GNSSEph/OrbAlmGen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbAlmGen.cpp b/ext/lib/GNSSEph/OrbAlmGen.cpp
index b996997..6f1caa4 100644
--- a/ext/lib/GNSSEph/OrbAlmGen.cpp
+++ b/ext/lib/GNSSEph/OrbAlmGen.cpp
@@ -163,8 +163,8 @@ namespace gpstk
       }
       else if (ct.getTimeSystem()==TimeSystem::BDT)
       {
-         unsigned int week = static_cast<BDSWeekSecond>(ct).week;
-         double sow = static_cast<BDSWeekSecond>(ct).sow;
+         week = static_cast<BDSWeekSecond>(ct).week;
+         sow = static_cast<BDSWeekSecond>(ct).sow;
          successfullySet = true;
       }
       if (successfullySet)
-- 
2.43.0


From 75d371cca3211891028bb102ab084cf71974f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 77/85] fix: the week of the reference time of differential
 corrections follows from that time

---
 ext/lib/GNSSEph/DiffCorrBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/DiffCorrBase.cpp b/ext/lib/GNSSEph/DiffCorrBase.cpp
index 02a5d33..8ca231a 100755
--- a/ext/lib/GNSSEph/DiffCorrBase.cpp
+++ b/ext/lib/GNSSEph/DiffCorrBase.cpp
@@ -144,7 +144,7 @@ namespace gpstk
       cout << " topD: " << printTime(topD,"%02m/%02d/%04Y %02H:%02M:%02S %P ") << endl;
 
           // Same check for the reference time.
-      diff = xmitSOW - topD_sow;
+      diff = xmitSOW - tOD_sow;
       unsigned tOD_week = xmitWeek;
       if (diff < -HALFWEEK)
         tOD_week--;
-- 
2.43.0


From 194ca4b6e7ace91bb58908f57abefa9f0d0cd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 78/85] fix: a subframe other than 4 or 5 has no unique ID,
 whatever was loaded before

---
 ext/lib/GNSSEph/OrbSysGpsL.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL.cpp b/ext/lib/GNSSEph/OrbSysGpsL.cpp
index 1ace53c..922a222 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL.cpp
@@ -90,6 +90,11 @@ namespace gpstk
       {
          UID = pnb.asUnsignedLong(62,6,1);
       }
+      else
+      {
+            // subframes 1 to 3 carry no unique ID
+         UID = 0;
+      }
    }  
 
       // Of the system-level data, only Data ID 51 is in subframe 5.
-- 
2.43.0


From 87291b873469741100c1630547b89c4592c347b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 79/85] fix: OrbSysGpsL_Reserved refuses messages whose unique
 ID is not reserved

---
 ext/lib/GNSSEph/OrbSysGpsL_Reserved.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_Reserved.cpp b/ext/lib/GNSSEph/OrbSysGpsL_Reserved.cpp
index 93ef813..276f312 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_Reserved.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_Reserved.cpp
@@ -88,7 +88,7 @@ namespace gpstk
       setUID(msg);
 
       if (UID!=53 && UID!=54 &&
-          (UID<57 && UID>62) )
+          (UID<57 || UID>62) )
       {
          stringstream ss;
          ss << "Expected GPS Subframe 4, Reserved Page.  Found unique ID ";
-- 
2.43.0


From 427005fafebf23a33dcb41df09152fefc89c6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 80/85] fix: OrbSysGpsL_51 compares the almanac reference time
 and initialises all health words

---
 ext/lib/GNSSEph/OrbSysGpsL_51.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_51.cpp b/ext/lib/GNSSEph/OrbSysGpsL_51.cpp
index 49fe19d..47cafa1 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_51.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_51.cpp
@@ -68,7 +68,7 @@ namespace gpstk
    OrbSysGpsL_51::OrbSysGpsL_51()
       :OrbSysGpsL(), toa(0), WNa(0)
    {
-      for (int i=0;i< 9;i++) { health[i] = 0; }
+      for (int i=0;i<=24;i++) { health[i] = 0; }
       ctToa = MJD(GPS_EPOCH_MJD,TimeSystem::GPS); 
    }
 
@@ -93,6 +93,7 @@ namespace gpstk
       if (!OrbSysGpsL::isSameData(right)) return false;
        
          // Finally, examine the contents
+      if (ctToa != p->ctToa) return false;
       for (int i=1; i<=24; i++)
       {
          if (health[i] != p->health[i]) return false;
-- 
2.43.0


From 3f9e740aa1a4cdcc8e8c91d4076cddd6d1ea226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 81/85] fix: OrbSysGpsL_63::hasSignal refuses satellite numbers
 below 1

---
 ext/lib/GNSSEph/OrbSysGpsL_63.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_63.cpp b/ext/lib/GNSSEph/OrbSysGpsL_63.cpp
index 3455334..b71f7c7 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_63.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_63.cpp
@@ -103,7 +103,7 @@ namespace gpstk
 
       // Check for a valid satelilte ID
        if (sidr.system!=SatelliteSystem::GPS ||
-           sidr.id>MAX_PRN)
+           sidr.id<1 || sidr.id>MAX_PRN)
        {
            stringstream ss;
            ss << sidr << " is not a valid GPS satellite.";
-- 
2.43.0


From 995b3c8d69cb807f6f7bb488c9827afcc34abf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:49 +0000
Subject: [PATCH 82/85] fix: OrbSysGpsL::getPageID counts the pages of unique
 IDs 57 and 62 from one like the others

---
 ext/lib/GNSSEph/OrbSysGpsL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL.cpp b/ext/lib/GNSSEph/OrbSysGpsL.cpp
index 922a222..0f3f94c 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL.cpp
@@ -134,7 +134,7 @@ namespace gpstk
             unsigned long lsow = (unsigned long) sow; 
             unsigned long secInAlmPeriod = lsow % ALMANAC_PERIOD;
             unsigned long page = secInAlmPeriod / FRAME_PERIOD; 
-            retVal = (unsigned short) page; 
+            retVal = (unsigned short) (page + 1);   // pages count from 1
             break;
          }
          default: break;
-- 
2.43.0


From caad0051dd9a9c9b76c900eee86677d25a7b4848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:49 +0000
Subject: [PATCH 83/85] fix: OrbSysGpsL_56::getUtcOffset applies the new leap
 second at the end of day DN

---
 ext/lib/GNSSEph/OrbSysGpsL_56.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_56.cpp b/ext/lib/GNSSEph/OrbSysGpsL_56.cpp
index 9b06d24..0c88472 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_56.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_56.cpp
@@ -226,8 +226,6 @@ namespace gpstk
       if (!initialXMit) testDiff = 3600*24;
       double diff = ctEpoch - ct;
 
-      cout << " testDiff: " << testDiff << ", diff: " << diff << endl;
-
       if (diff<testDiff) return false;
 
          // Test that the t-sub-ot is not more than a
@@ -244,20 +242,19 @@ namespace gpstk
       // week rollovers.
    double OrbSysGpsL_56::getUtcOffset(const CommonTime& ct) const
    {
-      cout << "In getUtcOffset" << endl;
       double retVal;
 
          // delta t-sub-UTC is the same in all cases.
       double dtUTC = getUtcOffsetModLeapSec(ct);
 
          // compute offset between user's time and
-         // leap second time of effectivity.
-      double diff = ctLSF - ct;
-      double diffAbs = fabs(diff);
+         // leap second time of effectivity, which is the end
+         // of the UTC day DN (ctLSF is the beginning of day DN).
+      double diff = (ctLSF + SEC_PER_DAY + (double) dtLSF) - ct;
 
          // Case a: WN-sub-LSF/DN is not in the past.
-         // That is to say, it is >= the current time.
-      if (diff>=0)
+         // That is to say, it is > the current time.
+      if (diff>0)
       {
          retVal = (double) dtLS + dtUTC;
       }
@@ -267,7 +264,6 @@ namespace gpstk
       }
 
       return retVal;
-      cout << "leaving getUtcOffset" << endl;
    } // end of getUtcOffset()
 
    double OrbSysGpsL_56::getUtcOffsetModLeapSec(const CommonTime& ct) const
-- 
2.43.0


From b2270468314a441906f07a7b34556c5325771803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:49 +0000
Subject: [PATCH 84/85] fix: OrbSysGpsC_33::getUtcOffset treats only the six
 hours around a leap second specially

---
 ext/lib/GNSSEph/OrbSysGpsC_33.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsC_33.cpp b/ext/lib/GNSSEph/OrbSysGpsC_33.cpp
index c86f299..2e368a7 100644
--- a/ext/lib/GNSSEph/OrbSysGpsC_33.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsC_33.cpp
@@ -218,19 +218,20 @@ namespace gpstk
       double diff = (ctLSF + SEC_PER_DAY) - ct;
       double diffAbs = fabs(diff);
       double SEC_PER_HALF_DAY = SEC_PER_DAY / 2.0;
+      double SIX_HOURS = SEC_PER_DAY / 4.0;
 
       //cout << " diff, diffAbs : " << diff << ", " << diffAbs << endl;
 
          // Case a: Effectivity is NOT in the past and is more than
          //         six hours in the future
-      if (diff>0 && diffAbs>SEC_PER_HALF_DAY)
+      if (diff>0 && diffAbs>SIX_HOURS)
       {
          //cout << "Case a" << endl;
          retVal = (double) dtLS + dtUTC;
       }
          // Case c: Effectivity is in the past and more than a
-         // half-day in the past.
-      else if (diff<0 && diffAbs>SEC_PER_HALF_DAY)
+         // six hours in the past.
+      else if (diff<0 && diffAbs>SIX_HOURS)
       {
          //cout << "Case c" << endl;
          retVal = (double) dtLSF + dtUTC;
-- 
2.43.0


From 584fe845518da3d74500c15c786b51363b182ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 85/85] fix: OrbSysGpsL_52::getERD gives the correction of PRN
 31

---
 ext/lib/GNSSEph/OrbSysGpsL_52.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_52.cpp b/ext/lib/GNSSEph/OrbSysGpsL_52.cpp
index 9b1e808..c7847d7 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_52.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_52.cpp
@@ -246,7 +246,7 @@ namespace gpstk
          InvalidRequest exc("NMCT data is not unencrypted.");
          GPSTK_THROW(exc);
       }
-      if ((sidr.id < 1) | (sidr.id >=max_erd+1))
+      if ((sidr.id < 1) || (sidr.id > max_erd+1))
       {
          InvalidRequest exc("SatID out of range");
          GPSTK_THROW(exc);
@@ -259,7 +259,7 @@ namespace gpstk
       
       int ndx = sidr.id - 1;
       if (sidr.id > satID.id) ndx--;
-      if (ndx > 30)
+      if (ndx >= max_erd)
       {
          InvalidRequest exc("NMCT only valid for PRN 1-31.");
          GPSTK_THROW(exc);
-- 
2.43.0

