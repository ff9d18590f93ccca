From b04b92220eddae72d7958e7b5c78c23645e4ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 01/30] fix: normalize found the extremes by the parity of the
 whole table instead of a series

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..05d9821 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -227,7 +227,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     data_t x, y, z;
 
     // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From 7f33435084f20ab5925914218a6b72d8f0b54c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 02/30] fix: release arrays of values with delete[]

---
 src/TimeSeries.cpp    | 2 +-
 src/TimeSeriesSet.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..fafb16d 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -50,7 +50,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 05d9821..c3cb623 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -304,7 +304,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From 37a74181733dccf03d8e483ac0c587e7e67d4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 03/30] fix: assigning a TimeSeries leaked its data, kept its
 old envelopes and broke on self-assignment

---
 src/TimeSeries.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index fafb16d..78772b2 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,6 +14,10 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  keoghCacheValid = false;
   if (isOwnerOfData) {
     delete[] this->data;
   }
@@ -35,6 +39,13 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  keoghCacheValid = false;
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
   data = other.data;
   index = other.index;
   start = other.start;
@@ -42,6 +53,9 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   length = other.length;
   isOwnerOfData = other.isOwnerOfData;
   other.data = nullptr;
+  other.isOwnerOfData = false;
+  other.start = other.end = other.length = 0;
+  other.keoghCacheValid = false;
   return *this;
 }
 
-- 
2.43.0


From c63763af2b577b14c45630fb65c1f3b5e5ae197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 04/30] fix: writing an element of a TimeSeries left its cached
 envelopes stale

---
 src/TimeSeries.cpp | 11 ++++++++++-
 src/TimeSeries.hpp |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 78772b2..f633b1c 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -73,7 +73,7 @@ TimeSeries::~TimeSeries()
   keoghUpper = nullptr;
 }
 
-data_t& TimeSeries::operator[](int idx) const
+const data_t& TimeSeries::operator[](int idx) const
 {
   if (idx < 0 || idx >= this->length) {
     throw OnexException("Data point index is out of range");
@@ -81,6 +81,15 @@ data_t& TimeSeries::operator[](int idx) const
   return this->data[start + idx];
 }
 
+data_t& TimeSeries::operator[](int idx)
+{
+  if (idx < 0 || idx >= this->length) {
+    throw OnexException("Data point index is out of range");
+  }
+  keoghCacheValid = false;
+  return this->data[start + idx];
+}
+
 TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 {
   if (other.getLength() != this->length)
diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 0a20713..877fe1d 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -119,7 +119,12 @@ public:
    *
    *  @throw OnexException if the index is out of bound
    */
-  data_t& operator[](int idx) const;
+  const data_t& operator[](int idx) const;
+
+  /**
+   *  @brief same as above, for writing. The envelopes are recalculated afterwards.
+   */
+  data_t& operator[](int idx);
 
   /**
    *  @brief accumulate data from other time series into this one
-- 
2.43.0


From 16296adfbe3569e9d70ab72c4dee7b0016398035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 05/30] fix: candidates were compared by the integer part of
 their distance difference

---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 877fe1d..ed4bf61 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -208,7 +208,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (abs(dist - rhs.dist) < EPS)
+    if (dist == rhs.dist || std::abs(dist - rhs.dist) < EPS)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 280d79894a7a4fcb59790ff1d397a59421523de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 06/30] fix: a read error while counting lines silently
 shortened the loaded dataset

---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index c3cb623..3d884d2 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -24,6 +24,10 @@ int countNumberOfLines(std::ifstream& f)
   int lineCount = 0;
   string line;
   for (lineCount = 0; std::getline(f, line); ++lineCount);
+  if (f.bad())
+  {
+    throw OnexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return lineCount;
-- 
2.43.0


From f9318a21951bbc27cb0f8bad31669a279c7be8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 07/30] fix: loading with a negative or too large start column
 or from an empty file corrupted memory or gave a dataset without data

---
 src/TimeSeriesSet.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 3d884d2..6e0a7eb 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -80,6 +80,11 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw OnexException("Starting column must not be negative");
+  }
+
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -162,6 +167,13 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
+  if (this->itemCount == 0 || length <= startCol)
+  {
+    f.close();
+    this->clearData();
+    throw OnexException("File contains no data");
+  }
+
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From 06bef8d9c35862109880658b8288f8c33b466d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 08/30] fix: loading overran the value array in the
 single-precision build

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 6e0a7eb..5985ff2 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -119,7 +119,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
-- 
2.43.0


From 1f1bbadc5477b6b178e989f381aa2a773ef5bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 09/30] fix: a cleared dataset was still reported as normalized

---
 src/TimeSeriesSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 5985ff2..c06b5a1 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -203,6 +203,7 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From b757e5fecc8e6f66638b21308802b40c5146e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 10/30] fix: PAA of a dataset without data made up a series
 length

---
 src/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index c06b5a1..22090e8 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -314,6 +314,9 @@ void TimeSeriesSet::PAA(int n)
   if (n <= 0) {
     throw OnexException("Block size must be positive");
   }
+  if (!this->isLoaded()) {
+    throw OnexException("No data to average");
+  }
   int newItemLength = calcPAALength(this->itemLength, n);
   data_t* new_data = new data_t[this->itemCount * newItemLength];
   for (int ts = 0; ts < this->itemCount; ts++)
-- 
2.43.0


From 2ddfee68b98aa8c1e5c178eed69576eb17203382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 11/30] fix: saved datasets and groups lost precision

---
 src/GroupableTimeSeriesSet.cpp | 5 ++++-
 src/TimeSeries.cpp             | 2 +-
 src/TimeSeriesSet.cpp          | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..5907b64 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,8 @@
 #include <iostream>
 
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 using std::ofstream;
 using std::ifstream;
@@ -55,7 +57,8 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
-    fout << GROUP_FILE_VERSION << " " 
+    fout << std::setprecision(std::numeric_limits<data_t>::max_digits10)
+         << GROUP_FILE_VERSION << " " 
          << this->threshold << " "
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index f633b1c..f278a7c 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -156,7 +156,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 22090e8..bd7131f 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -5,6 +5,8 @@
 #include <fstream>
 #include <iostream>
 #include <cstring>
+#include <iomanip>
+#include <limits>
 #include <boost/tokenizer.hpp>
 
 #include "distance/Distance.hpp"
@@ -188,6 +190,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From 978b9874de74c25d3e4362861aef4c9fcf5d93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 12/30] fix: failures while writing datasets and groups went
 unreported

---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 src/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 5907b64..45446ae 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -63,6 +63,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
     this->groupsAllLengthSet->saveGroups(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw OnexException("Error while writing file");
+    }
   }
   else
   {
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index bd7131f..37b7d93 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -198,6 +198,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << std::endl;
   }
   f.close();
+  if (!f)
+  {
+    throw OnexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 6eccf43a0ef9cfb8c1b984293f469d4df8d3fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 13/30] fix: distanceBetween took negative positions for the
 whole series

---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 37b7d93..bc3f9f7 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -345,6 +345,10 @@ data_t TimeSeriesSet::distanceBetween(int idx, int start, int length,
     const TimeSeries& other, const std::string& distance_name)
 {
   const dist_t distance = getDistance(distance_name);
+  if (start < 0 || length <= 0 || length > this->itemLength - start)
+  {
+    throw OnexException("Invalid starting position or length of a time series");
+  }
   return distance(this->getTimeSeries(idx, start, start + length), other, INF);
 }
 
-- 
2.43.0


From 0be59778611c01dcfb4782362eb24c1be405ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 14/30] fix: the first row and column of the warping matrix
 exceeded the warping band

---
 src/distance/Distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 088f842..0e92d67 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -75,13 +75,13 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
   cost[0][0] = _euc(a[0], b[0]);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = cost[i-1][0] + _euc(a[i], b[0]);
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = cost[0][j-1] + _euc(a[0], b[j]);
   }
-- 
2.43.0


From b88f98a920453e7db5478e1e5b2379646554e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 15/30] fix: negative and huge warping band ratios made band
 sizes invalid

---
 src/distance/Distance.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 0e92d67..df6df20 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -126,13 +126,16 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  if (!(ratio >= 0)) {
+    throw OnexException("Warping band ratio must not be negative");
+  }
   warpingBandRatio = ratio;
 }
 
 int calculateWarpingBandSize(int length)
 {
-  int bandSize = floor(length * warpingBandRatio);
-  return std::min(bandSize, length - 1);
+  double bandSize = floor(length * warpingBandRatio);
+  return bandSize < length - 1 ? (int) bandSize : length - 1;
 }
 
 data_t kimLowerBound(const TimeSeries& a, const TimeSeries& b, data_t dropout)
-- 
2.43.0


From a7462dc9e490f91e487ee2d19b1e63b3c0e33dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 16/30] fix: logging the progress of grouping few sequences
 divided by zero

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..531b9a6 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From bca56378c48ee2a297fbfddd61deb9db9114d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 17/30] fix: grouping used an undefined group if no distance
 was finite

---
 src/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 531b9a6..ed38849 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -73,7 +73,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (unsigned int i = 0; i < groups.size(); i++)
       {
@@ -85,7 +85,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFar > threshold / 2 || bestSoFarIndex < 0)
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-- 
2.43.0


From 0dc6f77774bfbec9789eb642d9b49cc7ea7c6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 18/30] fix: matching a query longer than the dataset or
 without a candidate accessed invalid memory

---
 src/GlobalGroupSpace.cpp | 11 +++++++++--
 src/Group.cpp            |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..5d179c8 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -76,6 +76,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("There is no sequence to match with the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -120,7 +123,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -129,7 +134,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..dff0ee2 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -39,7 +39,7 @@ candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_
   member_coord_t currentMemberCoord = this->lastMemberCoord;
 
   data_t bestSoFarDist = INF;
-  member_coord_t bestSoFarMember;
+  member_coord_t bestSoFarMember(-1, -1);
 
   while (currentMemberCoord.first != -1)
   {
-- 
2.43.0


From 6a71f24bf925dbae275dfc0b7047088c5b29a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 19/30] fix: grouping with an unknown distance replaced the
 groups by none

---
 src/GroupableTimeSeriesSet.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 45446ae..79f599e 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -7,6 +7,7 @@
 #include <fstream>
 #include <iomanip>
 #include <limits>
+#include <memory>
 
 using std::ofstream;
 using std::ifstream;
@@ -27,11 +28,12 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
     throw OnexException("No data to group");
   }
 
-  // clear old groups
-  reset();
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+  int cntGroups = newGroups->group(distance_name, threshold);
 
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-  int cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  // replace old groups
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   this->threshold = threshold;
   return cntGroups;
 }
-- 
2.43.0


From 01237c27c140a95bc663e3a77793e63a2126d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 20/30] fix: groups stayed in use after the values they refer
 to had changed or been released

---
 src/GroupableTimeSeriesSet.hpp | 4 ++++
 src/TimeSeriesSet.cpp          | 3 +++
 src/TimeSeriesSet.hpp          | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..3f76548 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -57,6 +57,10 @@ public:
    */
   candidate_time_series_t getBestMatch(const TimeSeries& other) const;
 
+protected:
+  // groups refer to the values of the dataset
+  void onDataChange() override { reset(); }
+
 private:
   GlobalGroupSpace* groupsAllLengthSet = nullptr;
   data_t threshold;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index bc3f9f7..2e7feb7 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -206,6 +206,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
 
 void TimeSeriesSet::clearData()
 {
+  this->onDataChange();
   delete[] this->data;
   this->data = nullptr;
   this->itemCount = 0;
@@ -238,6 +239,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
   {
     throw OnexException("No data to normalize");
   }
+  this->onDataChange();
 
   // auto minAndMax = std::minmax(this->data);
   // data_t diff = *minAndMax.first - *minAndMax.second;
@@ -331,6 +333,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
+  this->onDataChange();
   delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
diff --git a/src/TimeSeriesSet.hpp b/src/TimeSeriesSet.hpp
index c0622e6..299c05a 100644
--- a/src/TimeSeriesSet.hpp
+++ b/src/TimeSeriesSet.hpp
@@ -138,6 +138,11 @@ public:
   bool isLoaded(void);
 
 protected:
+  /**
+   *  @brief called before the values of the dataset are changed or released
+   */
+  virtual void onDataChange() {}
+
   data_t* data = nullptr;
   int itemLength;
   int itemCount;
-- 
2.43.0


From a517ad34299591af15b5c0f135c3e6620ad1f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 21/30] fix: group files were loaded without validation and old
 groups were lost if that failed

---
 src/GlobalGroupSpace.cpp       | 16 +++++++++++-----
 src/Group.cpp                  | 30 +++++++++++++++++++++++++++---
 src/Group.hpp                  |  9 ++++++++-
 src/GroupableTimeSeriesSet.cpp | 22 ++++++++++++++++++----
 src/LocalLengthGroupSpace.cpp  | 19 ++++++++++++++-----
 5 files changed, 78 insertions(+), 18 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5d179c8..c706fb7 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -104,14 +104,20 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int lenFrom, lenTo;
   int numberOfGroups = 0;
   string distance;
-  fin >> lenFrom >> lenTo >> distance;
+  if (!(fin >> lenFrom >> lenTo >> distance)
+      || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+    throw OnexException("Invalid range of lengths in group file");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
-  for (unsigned int i = lenFrom; i < lenTo; i++) {
-    LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
-    this->localLengthGroupSpace[i] = gel;
+  for (int i = lenFrom; i < lenTo; i++) {
+    this->localLengthGroupSpace[i] = new LocalLengthGroupSpace(dataset, i);
+    numberOfGroups += this->localLengthGroupSpace[i]->loadGroups(fin);
+  }
+  fin >> std::ws;
+  if (!fin.eof()) {
+    throw OnexException("Unexpected content at the end of group file");
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index dff0ee2..6720c2e 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -4,7 +4,10 @@
 #include <fstream>
 #include <vector>
 #include <algorithm>
+#include <cstdlib>
+#include <string>
 
+#include "Exception.hpp"
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
 
@@ -100,19 +103,40 @@ void Group::saveGroup(ofstream &fout) const
   fout << endl;
 }
 
+data_t readValue(ifstream &fin)
+{
+  std::string token;
+  char* end = nullptr;
+  fin >> token;
+  data_t value = (data_t) std::strtod(token.c_str(), &end);
+  if (!fin || *end != '\0') {
+    throw OnexException("Invalid value in group file");
+  }
+  return value;
+}
+
 void Group::loadGroup(ifstream &fin)
 {
   int cnt;
   this->centroid = TimeSeries(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
-    fin >> this->centroid[i];
+    this->centroid[i] = readValue(fin);
   }
 
-  fin >> cnt; 
+  if (!(fin >> cnt) || cnt <= 0) {
+    throw OnexException("Invalid member count in group file");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start) || index < 0 || index >= this->dataset.getItemCount()
+        || start < 0 || start >= this->subTimeSeriesCount) {
+      throw OnexException("Invalid member in group file");
+    }
+    // each sequence belongs to only one group
+    if (this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw OnexException("Repeated member in group file");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..4386927 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -55,6 +55,13 @@ struct group_membership_t
    }
  };
 
+/**
+ *  @brief reads a value from a group file
+ *
+ *  @throw OnexException if the file has no value at its current position
+ */
+data_t readValue(std::ifstream &fin);
+
 /**
  *  @brief a group of similar time series
  *
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 79f599e..c13d106 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -79,18 +79,29 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
 
 int GroupableTimeSeriesSet::loadGroups(const string& path)
 {
+  if (!this->isLoaded())
+  {
+    throw OnexException("No data to load groups for");
+  }
+
   int numberOfGroups = 0;
   ifstream fin(path);
   if (fin)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    fin >> version;
+    if (!fin)
+    {
+      throw OnexException("Cannot read file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
     }
-    if (grpItemCount != this->getItemCount())
+    threshold = readValue(fin);
+    fin >> grpItemCount >> grpItemLength;
+    if (!fin || grpItemCount != this->getItemCount())
     {
       throw OnexException("Incompatible item count");
     }
@@ -99,10 +110,13 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroups(fin);
+
+    // replace old groups
     reset();
+    this->groupsAllLengthSet = newGroups.release();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
   }
   else
   {
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index ed38849..d2de39a 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -138,12 +138,21 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
-  for (unsigned int i = 0; i < numberOfGroups; i++)
+  if (!(fin >> numberOfGroups) || numberOfGroups < 0)
   {
-    Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
-    this->groups.push_back(grp);
+    throw OnexException("Invalid number of groups in group file");
+  }
+  size_t numberOfMembers = 0;
+  for (int i = 0; i < numberOfGroups; i++)
+  {
+    this->groups.push_back(
+      new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap));
+    this->groups[i]->loadGroup(fin);
+    numberOfMembers += this->groups[i]->getCount();
+  }
+  if (numberOfMembers != this->memberMap.size())
+  {
+    throw OnexException("Group file does not have all time series of the dataset");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 71090afb2a6ba2e544704cb02551ac920032feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 22/30] fix: match with a lone start position and unload with
 extra arguments were not refused

---
 cli/OnexCLI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..cf7ca2f 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -141,7 +141,7 @@ MAKE_COMMAND(SaveDataset,
 
 MAKE_COMMAND(UnloadDataset,
   {
-    if (tooFewArgs(args, 2) || tooManyArgs(args, 5))
+    if (tooFewArgs(args, 2) || tooManyArgs(args, 2))
     {
       return false;
     }
@@ -369,7 +369,8 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    // the start and end locations are given together
+    if (tooFewArgs(args, args.size() == 5 ? 6 : 4) || tooManyArgs(args, 6))
     {
       return false;
     }
-- 
2.43.0


From cccb06d7a50898d5dd2d47b00c863cec24279440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 23/30] fix: lines from readline were released with delete or
 not at all

---
 cli/OnexCLI.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index cf7ca2f..a7c6df5 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -537,14 +538,16 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
+      free(raw_line);
       return true;
     }
   }
   while (strcmp(raw_line, "n") != 0);
+  free(raw_line);
   return false;
 }
 
@@ -574,7 +577,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From d6990c63af26bb0b2ed331b6744e1ee141024398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 24/30] fix: integers in group files must be whole tokens

A token such as '1.5' or '2x' was split where an integer was expected, so
that a file with a missing or damaged token could be taken for a valid one.
---
 src/GlobalGroupSpace.cpp       |  6 +++---
 src/Group.cpp                  | 24 ++++++++++++++++++++----
 src/Group.hpp                  |  7 +++++++
 src/GroupableTimeSeriesSet.cpp | 15 +++++----------
 src/LocalLengthGroupSpace.cpp  |  4 ++--
 5 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index c706fb7..929fb41 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -101,11 +101,11 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
 
-  int lenFrom, lenTo;
   int numberOfGroups = 0;
   string distance;
-  if (!(fin >> lenFrom >> lenTo >> distance)
-      || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+  int lenFrom = readInteger(fin);
+  int lenTo = readInteger(fin);
+  if (!(fin >> distance) || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
     throw OnexException("Invalid range of lengths in group file");
   }
   boost::trim_right(distance);
diff --git a/src/Group.cpp b/src/Group.cpp
index 6720c2e..e169425 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -4,6 +4,8 @@
 #include <fstream>
 #include <vector>
 #include <algorithm>
+#include <cerrno>
+#include <climits>
 #include <cstdlib>
 #include <string>
 
@@ -115,21 +117,35 @@ data_t readValue(ifstream &fin)
   return value;
 }
 
+int readInteger(ifstream &fin)
+{
+  std::string token;
+  char* end = nullptr;
+  fin >> token;
+  errno = 0;
+  long value = std::strtol(token.c_str(), &end, 10);
+  if (!fin || *end != '\0' || errno != 0 || value < INT_MIN || value > INT_MAX) {
+    throw OnexException("Invalid integer in group file");
+  }
+  return (int) value;
+}
+
 void Group::loadGroup(ifstream &fin)
 {
-  int cnt;
   this->centroid = TimeSeries(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
     this->centroid[i] = readValue(fin);
   }
 
-  if (!(fin >> cnt) || cnt <= 0) {
+  int cnt = readInteger(fin);
+  if (cnt <= 0) {
     throw OnexException("Invalid member count in group file");
   }
-  int index, start;
   for (int i = 0; i < cnt; i++) {
-    if (!(fin >> index >> start) || index < 0 || index >= this->dataset.getItemCount()
+    int index = readInteger(fin);
+    int start = readInteger(fin);
+    if (index < 0 || index >= this->dataset.getItemCount()
         || start < 0 || start >= this->subTimeSeriesCount) {
       throw OnexException("Invalid member in group file");
     }
diff --git a/src/Group.hpp b/src/Group.hpp
index 4386927..17891d4 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -62,6 +62,13 @@ struct group_membership_t
  */
 data_t readValue(std::ifstream &fin);
 
+/**
+ *  @brief reads an integer from a group file
+ *
+ *  @throw OnexException if the file has no integer at its current position
+ */
+int readInteger(std::ifstream &fin);
+
 /**
  *  @brief a group of similar time series
  *
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index c13d106..c189e82 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -88,20 +88,15 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   ifstream fin(path);
   if (fin)
   {
-    int version, grpItemCount, grpItemLength;
-    data_t threshold;
-    fin >> version;
-    if (!fin)
-    {
-      throw OnexException("Cannot read file");
-    }
+    int version = readInteger(fin);
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
     }
-    threshold = readValue(fin);
-    fin >> grpItemCount >> grpItemLength;
-    if (!fin || grpItemCount != this->getItemCount())
+    data_t threshold = readValue(fin);
+    int grpItemCount = readInteger(fin);
+    int grpItemLength = readInteger(fin);
+    if (grpItemCount != this->getItemCount())
     {
       throw OnexException("Incompatible item count");
     }
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index d2de39a..2f02d04 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -137,8 +137,8 @@ void LocalLengthGroupSpace::saveGroups(ofstream &fout, bool groupSizeOnly) const
 int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
-  int numberOfGroups;
-  if (!(fin >> numberOfGroups) || numberOfGroups < 0)
+  int numberOfGroups = readInteger(fin);
+  if (numberOfGroups < 0)
   {
     throw OnexException("Invalid number of groups in group file");
   }
-- 
2.43.0


From 8ab4ca9b10ba752ef779ed174f764000e39985bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 25/30] fix: calculate never released its data buffer and query
 order

---
 src/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index b90a9f2..4f02fd2 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -552,6 +552,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     free(u_d);
     free(l_buff);
     free(u_buff);
+    free(buffer);
+    free(order);
 
     t2 = clock();
     printf("\n");
-- 
2.43.0


From 1a89d50ee696a3e3f441e7b71b6923726bd3476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 26/30] fix: calculate read double values into a
 single-precision variable

---
 src/lib/trillionDTW.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index 4f02fd2..be8d9bd 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -252,7 +252,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     data_t *u, *l, *qo, *uo, *lo,*tz,*cb, *cb1, *cb2,*u_d, *l_d;
 
 
-    data_t d;
+    double d;            /// fscanf's %lf needs a double whatever data_t is
     long long i , j;
     data_t ex , ex2 , mean, std;
     int m=-1;
-- 
2.43.0


From 350b534c5a8ed8cedc728fec19b67b2747def7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 27/30] fix: load subnormal values, as saved datasets may
 contain them

---
 src/TimeSeriesSet.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 2e7feb7..48f3c95 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -5,6 +5,8 @@
 #include <fstream>
 #include <iostream>
 #include <cstring>
+#include <cstdlib>
+#include <cmath>
 #include <iomanip>
 #include <limits>
 #include <boost/tokenizer.hpp>
@@ -150,9 +152,15 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           }
           catch (const std::out_of_range& e)
           {
-            f.close();
-            this->clearData();
-            throw OnexException("Values are out of range");
+            // subnormal values are reported as out of range although they can be represented
+            double value = std::strtod(tok_iter->c_str(), nullptr);
+            if (value == 0 || std::abs(value) > std::numeric_limits<double>::min())
+            {
+              f.close();
+              this->clearData();
+              throw OnexException("Values are out of range");
+            }
+            data[row * (length - startCol) + (col - startCol)] = (data_t)value;
           }
         }
       }
-- 
2.43.0


From 519a265b712a46365842496fdf5c514114e8718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 28/30] fix: first/last points bound of short queries counted
 points twice and read outside the query

---
 src/lib/trillionDTW.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index be8d9bd..a359cc6 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -77,6 +77,9 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     lb = dist(x0,q[0]) + dist(y0,q[len-1]);
     if (lb >= bsf)   return lb;
 
+    /// The points at the front and at the back must not overlap
+    if (len < 4)   return lb;
+
     /// 2 points at front
     data_t x1 = (t[(j+1)] - mean) / std;
     d = min(dist(x1,q[0]), dist(x0,q[1]));
@@ -91,6 +94,8 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     lb += d;
     if (lb >= bsf)   return lb;
 
+    if (len < 6)   return lb;
+
     /// 3 points at front
     data_t x2 = (t[(j+2)] - mean) / std;
     d = min(dist(x0,q[2]), dist(x1, q[2]));
-- 
2.43.0


From d6bdc45c903de370a6e9f05bc99754b47fb13764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 29/30] fix: subsequence search wrote outside its buffers for
 bands wider than the query

---
 src/lib/trillionDTW.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index a359cc6..274d5d9 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -271,6 +271,9 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     int EPOCH = 100000;
     m=queryLength;
 
+    /// A warping band never exceeds the query
+    r = min(r, m-1);
+
     t1 = clock();
     fp = fopen(dataPath,"r");
     if( fp == NULL )
-- 
2.43.0


From 459d28aeaf9d5852ab30ca7961b1b1b84eb929ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:12 +0000
Subject: [PATCH 30/30] fix: loading a wide first row before many lines
 overflowed the size of the value array

---
 src/TimeSeriesSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 48f3c95..f3b8e9e 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -122,6 +122,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (length > 0 && maxNumRow > std::numeric_limits<int>::max() / length)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("File is too large");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
-- 
2.43.0

