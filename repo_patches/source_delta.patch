From 257097b4f70ac1f3e6d92df723b139e613202475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 01/67] fix: string tokenizers mishandle blank lines,
 unterminated quotes and trailing separators

blankTokenizer read before the start of a blank string, returned spurious
tokens when a line starts with an unterminated quote and dropped a single
character directly following a closing quote. charTokenizer threw
out_of_range on strings with no token left after the separators.
---
 src/utilities/string_utils.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 771b94d..55443e1 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -200,20 +200,27 @@ public:
     int ntok1, ntok2;
     std::vector<std::string> ret;
     ntok1 = strcpy.find_first_not_of(' ',0);
+    if (ntok1 == std::string::npos) return ret;
     if (strcpy[ntok1] == '\'') {
       ntok2 = strcpy.find('\'',ntok1+1);
-      ntok2++;
+      if (ntok2 != std::string::npos) {
+        ntok2++;
+      } else {
+        ntok2 = slen;
+      }
     } else if (strcpy[ntok1] == '\"') {
       ntok2 = strcpy.find('\"',ntok1+1);
-      ntok2++;
-    } else if (ntok1 != std::string::npos) {
+      if (ntok2 != std::string::npos) {
+        ntok2++;
+      } else {
+        ntok2 = slen;
+      }
+    } else {
       ntok2 = strcpy.find(' ',ntok1);
       if (ntok2 == std::string::npos) ntok2 = slen;
-    } else {
-      return ret;
     }
     ret.push_back(strcpy.substr(ntok1,ntok2-ntok1));
-    while (ntok2 < slen-1 && ntok1 != std::string::npos) {
+    while (ntok2 < slen && ntok1 != std::string::npos) {
       ntok1 = strcpy.find_first_not_of(' ',ntok2);
       if (ntok1 != std::string::npos) {
         if (strcpy[ntok1] == '\'') {
@@ -258,11 +265,15 @@ public:
     int ntok1, ntok2;
     std::vector<std::string> ret;
     ntok1 = str.find_first_not_of(*sep,0);
+    // no tokens in string
+    if (ntok1 == std::string::npos) return ret;
     ntok2 = str.find(*sep,ntok1);
     if (ntok2 == std::string::npos) ntok2 = slen;
     if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
     while (ntok2 < slen-1 && ntok1 != std::string::npos) {
       ntok1 = str.find_first_not_of(*sep,ntok2);
+      // only trailing separators are left
+      if (ntok1 == std::string::npos) break;
       ntok2 = str.find(*sep,ntok1);
       if (ntok2 == std::string::npos) ntok2 = slen;
       if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
-- 
2.43.0


From 0eb4a99989415ad70f77b129044f6ed99145ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 02/67] fix: DataCollection index buffer overflows for indices
 of more than 7 characters

---
 src/component/data_collection.cpp | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/component/data_collection.cpp b/src/component/data_collection.cpp
index 63969d3..f347689 100644
--- a/src/component/data_collection.cpp
+++ b/src/component/data_collection.cpp
@@ -99,7 +99,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_ints.insert(std::pair<std::string, int>(str,value));
@@ -110,7 +110,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_longs.insert(std::pair<std::string, long>(str,value));
@@ -121,7 +121,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_bools.insert(std::pair<std::string, bool>(str,value));
@@ -132,7 +132,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -144,7 +144,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_floats.insert(std::pair<std::string, float>(str,value));
@@ -155,7 +155,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_doubles.insert(std::pair<std::string, double>(str,value));
@@ -166,7 +166,7 @@ void gridpack::component::DataCollection::addValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_complexType.insert(std::pair<std::string, gridpack::ComplexType>(str,value));
@@ -315,7 +315,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -337,7 +337,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -359,7 +359,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -381,7 +381,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -404,7 +404,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -426,7 +426,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -448,7 +448,7 @@ bool gridpack::component::DataCollection::setValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -607,7 +607,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, int *value,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -629,7 +629,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, long *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -651,7 +651,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, bool *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -673,7 +673,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, std::string
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -695,7 +695,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, float *valu
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -717,7 +717,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, double *val
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -739,7 +739,7 @@ bool gridpack::component::DataCollection::getValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
-- 
2.43.0


From 2f6c3275f9455c871cea2cd36ecd0e635cbfcf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 03/67] fix: GlobalStore aborts when a stored vector is empty
 or an index has no data

---
 src/parallel/global_store.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 0857f49..d626582 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -162,7 +162,7 @@ public:
       int idx = p_index[i];
       int lo = p_begin[idx];
       int hi = p_end[idx]-1;
-      NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
+      if (lo <= hi) NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
       p_data[i].clear();
     }
     p_data.clear();
@@ -190,7 +190,7 @@ public:
     int hi = p_end[idx]-1;
     int size = p_end[idx]-p_begin[idx];
     _data_type *dbuf = new _data_type[size];
-    NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
+    if (size > 0) NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
     // Copy results to vector
     vec.clear();
     for (int i=0; i<size; i++) {
-- 
2.43.0


From e6b9065ac47e7ce2fab280e15b5ac461c656c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 04/67] fix: index hash accesses out of range for negative or
 large keys and returns stale values when nothing is requested

---
 src/parallel/index_hash.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index bf3ca94..75674d7 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -607,7 +607,11 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
     r_offset[i] += totalVals;
     totalVals += 2*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
@@ -979,7 +983,11 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
     r_offset[i] += totalVals;
     totalVals += 3*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
@@ -1162,7 +1170,8 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 // @return number between 0 and p_nprocs-1
 int GlobalIndexHashMap::hashValue(int key)
 {
-  return key%p_nprocs;
+  int hash = key%p_nprocs;
+  return (hash < 0 ? hash+p_nprocs : hash);
 }
 
 // hash function for index pairs. Maps the value of key into the interval [0,p_nprocs-1]
@@ -1174,7 +1183,9 @@ int GlobalIndexHashMap::pairHashValue(std::pair<int,int> key)
   int i1 = key.first;
   int i2 = key.second;
   // 1009 is prime number
-  return ((i2*1009+i1)%p_nprocs);
+  return static_cast<int>(
+      (static_cast<unsigned int>(i2)*1009u+static_cast<unsigned int>(i1))
+      %static_cast<unsigned int>(p_nprocs));
 }
 
 } // hash_map
-- 
2.43.0


From aeba6d64c45aa77195654bc4335e0df0facf5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 05/67] fix: GlobalVector upload loses data scattered before
 the owner has zeroed its part

---
 src/parallel/global_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parallel/global_vector.hpp b/src/parallel/global_vector.hpp
index b0a6ba5..4bede80 100644
--- a/src/parallel/global_vector.hpp
+++ b/src/parallel/global_vector.hpp
@@ -209,6 +209,8 @@ public:
       memset(dptr,'\0',ld*p_datasize);
       NGA_Release(p_GA,&ilo,&ihi);
     }
+    // All processes must be done with zeroing before any data is copied
+    GA_Pgroup_sync(GAgrp);
 
     // Copy data to GA
     _data_type *data;
-- 
2.43.0


From 9e2f58f7c9fd365312d323b01067b609dcf22433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 06/67] fix: branch with no element in service at load
 contributes nothing after an element is switched in

---
 src/applications/components/y_matrix/ymatrix_components.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index be851a3..00351c1 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -772,6 +772,7 @@ bool gridpack::ymatrix::YMBranch::setLineStatus(std::string tag,
   for (i=0; i<p_elems; i++) {
     if (tag == p_tag[i]) {
       p_branch_status[i] = status;
+      if (status) p_active = true;
       found = true;
       break;
     }
-- 
2.43.0


From 6957bdb107aa5a497560c3df5386d397d1e81b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 07/67] fix: power flow Jacobian misses a branch whose first
 element in service was switched in after load

---
 src/applications/components/pf_matrix/pf_components.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e251986..1e71520 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2416,6 +2416,8 @@ void gridpack::powerflow::PFBranch::setBranchStatus(std::string tag, bool status
   for (i=0; i<bsize; i++) {
     if (tag == p_ckt[i]) {
       p_branch_status[i] = status;
+      // branch contributes as soon as one of its elements is in service
+      if (status) p_active = true;
       YMBranch::setLineStatus(tag,status);
       return;
     }
-- 
2.43.0


From 3a0a1d35c674dcb88bb12f68474d29ee4c5c0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 08/67] fix: reactive limit enforcement distorts the loads and
 generators of a bus and is not undone on clearing

---
 .../components/pf_matrix/pf_components.cpp    | 63 +++++--------------
 .../components/pf_matrix/pf_components.hpp    |  3 +-
 2 files changed, 19 insertions(+), 47 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 1e71520..3bb7043 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -58,6 +58,7 @@ gridpack::powerflow::PFBus::PFBus(void)
   p_ngen = 0;
   p_data = NULL;
   p_ignore = false;
+  p_qlim = false;
   p_vMag_ptr = NULL;
   p_vAng_ptr = NULL;
   p_PV_ptr = NULL;
@@ -233,76 +234,47 @@ bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 bool gridpack::powerflow::PFBus::chkQlim(void)
 {
   if (p_isPV) {
-    double qmax, qmin, ppl;
+    double qmax, qmin;
     qmax = 0.0;
     qmin = 0.0;
-    ppl = 0.0;
     for (int i=0; i<p_gstatus.size(); i++) {
       if (p_gstatus[i] == 1) {
         qmax += p_qmax[i];
         qmin += p_qmin[i];
-        ppl  += p_pg[i];
       }
     }
-    std::vector<boost::shared_ptr<BaseComponent> > branches;
-    getNeighborBranches(branches);
-    int size = branches.size();
-    double P, Q, p, q;
-    int ngen=p_pFac.size();
-    double pl =0.0;
     double ql =0.0;
     for (int i=0; i<p_lstatus.size(); i++) {
       if (p_lstatus[i] == 1) {
-        pl += p_pl[i];
         ql += p_ql[i];
       }
     }
-    p_save2isPV = p_isPV;
-    double pval = p_Pinj*p_sbase+pl;
     double qval = p_Qinj*p_sbase+ql;
 
-//  If qval exceeds the total generator Q capacity, perform PV->PQ
+//  If qval exceeds the total generator Q capacity, perform PV->PQ. The real
+//  power of the generators and the loads are unchanged, reactive power of the
+//  generators is fixed at the limit
 //
     if (qval > qmax ) {
       printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
-      ql = ql-qmax;
       p_save2isPV = p_isPV;
       p_isPV = false;
-      *p_PV_ptr = false;
-      pl -= ppl;
-    //p_gstatus.clear();
+      p_qlim = true;
+      p_qg_save = p_qg;
       for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmax[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+        if (p_gstatus[i] == 1) p_qg[i] = p_qmax[i];
       }
       if (p_PV_ptr) *p_PV_ptr = p_isPV;
       return true;
     } else if (qval < qmin) {
       printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
-      ql = ql-qmin;
       p_save2isPV = p_isPV;
       p_isPV = false;
-      pl -= ppl;
-    //  p_gstatus.clear();
+      p_qlim = true;
+      p_qg_save = p_qg;
       for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmin[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+        if (p_gstatus[i] == 1) p_qg[i] = p_qmin[i];
       }
-
       if (p_PV_ptr) *p_PV_ptr = p_isPV;
       return true;
     } else {
@@ -323,12 +295,10 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
  */
 void gridpack::powerflow::PFBus::clearQlim()
 {
-  int size = p_gstatus_save.size();
-  p_gstatus.clear();
-  int i;
-  for (i=0; i<size; i++) {
-    p_gstatus.push_back(p_gstatus_save[i]);
-  }
+  // nothing to do if no limit was enforced on this bus
+  if (!p_qlim) return;
+  p_qlim = false;
+  p_qg = p_qg_save;
   p_isPV = p_save2isPV;
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
@@ -434,7 +404,8 @@ void gridpack::powerflow::PFBus::load(
   p_pFac.clear();
   p_pFac_orig.clear();
   p_gstatus.clear();
-  p_gstatus_save.clear();
+  p_qg_save.clear();
+  p_qlim = false;
   p_qmin.clear();
   p_qmax.clear();
   p_qmin_orig.clear();
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 993171f..8a30a67 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -457,7 +457,7 @@ class PFBus
     std::vector<double> p_pg, p_qg, p_pFac;
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
-    std::vector<int> p_gstatus_save;
+    std::vector<double> p_qg_save; // reactive power before limits were enforced
     std::vector<double> p_qmax,p_qmin;
     std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
     std::vector<double> p_vs;
@@ -473,6 +473,7 @@ class PFBus
     double p_Pinj, p_Qinj;
     double p_vmin, p_vmax;
     bool p_isPV, p_saveisPV, p_save2isPV;
+    bool p_qlim; // reactive power limits are enforced on this bus
     bool *p_PV_ptr;
     int p_ngen;
     int p_nload;
-- 
2.43.0


From 8d852fe799ec9ff09d2e110eb386889d7df5466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 09/67] fix: Q limit check of an area reports a violation
 exactly when there is none

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 38d9a29..01e26d8 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -638,7 +638,7 @@ bool gridpack::powerflow::PFFactoryModule::checkQlimViolations(int area)
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (bus->getArea() == area) {
-        if (!bus->chkQlim()) bus_ok = false;
+        if (bus->chkQlim()) bus_ok = false;
       }
     }
   }
-- 
2.43.0


From be842ccdc904612554d087c7d1d56bc49219813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 10/67] fix: checkLoneBus returns the negated result on each
 process

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 01e26d8..1428e01 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -179,7 +179,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
     if (!ok) bus_ok = false;
   }
   // Check whether bus_ok is true on all processors
-  return checkTrue(!bus_ok);
+  return checkTrue(bus_ok);
 }
 
 /**
-- 
2.43.0


From e2f66041cd893ca6eb32bc070c223dad0ddd6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 11/67] fix: ignoreVoltageViolations ignores the buses without
 a violation

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 1428e01..fdd4b4c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -315,7 +315,7 @@ void gridpack::powerflow::PFFactoryModule::ignoreVoltageViolations()
       gridpack::powerflow::PFBus *bus =
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
-      if (bus->checkVoltageViolation()) bus->setIgnore(true);
+      if (!bus->checkVoltageViolation()) bus->setIgnore(true);
     }
   }
 }
-- 
2.43.0


From 06c8025fe9bd5dd0b853f9470d1474f54a22cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 12/67] fix: list of violations is incomplete and mixes up the
 contributions of processes

---
 .../modules/powerflow/pf_factory_module.cpp   | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index fdd4b4c..68dc9ef 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -262,7 +262,17 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations()
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (!bus->getIgnore()) {
-        if (!bus->checkVoltageViolation()) bus_ok = false;
+        if (!bus->checkVoltageViolation()) {
+          bus_ok = false;
+          gridpack::powerflow::PFFactoryModule::Violation violation;
+          int idx = bus->getOriginalIndex();
+          violation.bus_violation = true;
+          violation.line_violation = false;
+          violation.bus1 = idx;
+          violation.bus2 = -1;
+          violation.tag[0] = '\0';
+          p_violations.push_back(violation);
+        }
       }
     }
   }
@@ -294,6 +304,7 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations(
           violation.line_violation = false;
           violation.bus1 = idx;
           violation.bus2 = -1;
+          violation.tag[0] = '\0';
           p_violations.push_back(violation);
         }
       }
@@ -447,7 +458,17 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(int area)
               if (rate > 0.0) {
                 gridpack::ComplexType s = branch->getComplexPower(tags[k]);
                 double pq = abs(s);
-                if (pq > rate) branch_ok = false;
+                if (pq > rate) {
+                  branch_ok = false;
+                  gridpack::powerflow::PFFactoryModule::Violation violation;
+                  violation.bus_violation = false;
+                  violation.line_violation = true;
+                  violation.bus1 = branch->getBus1OriginalIndex();
+                  violation.bus2 = branch->getBus2OriginalIndex();
+                  strncpy(violation.tag,tags[k].c_str(),2);
+                  violation.tag[2] = '\0';
+                  p_violations.push_back(violation);
+                }
               }
             }
           }
@@ -912,7 +933,7 @@ gridpack::powerflow::PFFactoryModule::getViolations()
 
   p_network->communicator().sum(&sizes[0],nproc);
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From 5b93588f2ef7bb673a716c88bf925e02560b25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 13/67] fix: overload check of listed lines looks at the wrong
 line and rating

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 68dc9ef..bbca486 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -508,6 +508,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
     std::vector<int> indices = p_network->getLocalBranchIndices(bus1[i],bus2[i]);
     int j;
     for (j=0; j<indices.size(); j++) {
+      if (!p_network->getActiveBranch(indices[j])) continue;
       gridpack::powerflow::PFBranch *branch = p_network->getBranch(indices[j]).get();
       // Loop over all lines in the branch and choose the smallest rating value
       int nlines;
@@ -515,7 +516,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       std::vector<std::string> alltags = branch->getLineTags();
       double rate;
       for (int k = 0; k<nlines; k++) {
-        if (tags[i] == alltags[k] && !branch->getIgnore(tags[k])) {
+        if (tags[i] == alltags[k] && !branch->getIgnore(tags[i])) {
           bool foundRating=false;
           if (p_rateB) {
             if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_B,
@@ -533,10 +534,9 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
               foundRating = true;
             }
           }
-          if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_A,
-                &rate,k)) {
+          if (foundRating) {
             if (rate > 0.0) {
-              gridpack::ComplexType s = branch->getComplexPower(tags[k]);
+              gridpack::ComplexType s = branch->getComplexPower(tags[i]);
               double pq = abs(s);
               if (pq > rate) {
                 failure[i] = 1;
-- 
2.43.0


From 25fac63978acb81af1447c5d5a99c1dd320a2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 14/67] fix: overloads of rating A are ignored when rating B is
 checked

---
 .../modules/powerflow/pf_factory_module.cpp         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index bbca486..274d7d2 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -576,13 +576,18 @@ void gridpack::powerflow::PFFactoryModule::ignoreLineOverloadViolations()
       int nlines;
       p_network->getBranchData(i)->getValue(BRANCH_NUM_ELEMENTS,&nlines);
       std::vector<std::string> tags = branch->getLineTags();
-      double rateA;
+      double rate;
       for (int k = 0; k<nlines; k++) {
-        if (p_network->getBranchData(i)->getValue(BRANCH_RATING_A,&rateA,k)) {
-          if (rateA > 0.0) {
+        bool foundRating = false;
+        if (p_rateB) foundRating =
+          p_network->getBranchData(i)->getValue(BRANCH_RATING_B,&rate,k);
+        if (!foundRating) foundRating =
+          p_network->getBranchData(i)->getValue(BRANCH_RATING_A,&rate,k);
+        if (foundRating) {
+          if (rate > 0.0) {
             gridpack::ComplexType s = branch->getComplexPower(tags[k]);
             double pq = abs(s);
-            if (pq > rateA) branch->setIgnore(tags[k],true);
+            if (pq > rate) branch->setIgnore(tags[k],true);
           }
         }
       }
-- 
2.43.0


From a2aa9a87bd55c2187f5640c35edea1ac4f7d1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 15/67] fix: lines that are out of service report a power flow
 and are flagged as overloaded

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 3bb7043..8f55375 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2216,6 +2216,10 @@ gridpack::ComplexType gridpack::powerflow::PFBranch::getComplexPower(
   gridpack::powerflow::PFBus *bus2 =
     dynamic_cast<gridpack::powerflow::PFBus*>(getBus2().get());
   vj = bus2->getComplexVoltage();
+  // no power flows through an element that is out of service
+  if (!getBranchStatus(tag) || bus1->isIsolated() || bus2->isIsolated()) {
+    return s;
+  }
   getLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
-- 
2.43.0


From b133dbd5dce83181e419c1ac277e1d93bf0156a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 16/67] fix: total load and generator margins of a region count
 ghost buses and are not summed over processes

---
 .../modules/dynamic_simulation_full_y/dsf_factory.cpp      | 7 +++++++
 src/applications/modules/powerflow/pf_factory_module.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
index cc9bd1f..df93fe5 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
@@ -502,6 +502,7 @@ double gridpack::dynamic_simulation::DSFullFactory::getTotalLoadRealPower(
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -544,6 +545,7 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -566,6 +568,11 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
       }
     }
   }
+  double sums[3] = {*total, *pmin, *pmax};
+  p_network->communicator().sum(sums,3);
+  *total = sums[0];
+  *pmin = sums[1];
+  *pmax = sums[2];
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 274d7d2..148bccb 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -796,6 +796,7 @@ double gridpack::powerflow::PFFactoryModule::getTotalLoadRealPower(int area, int
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -838,6 +839,7 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -860,6 +862,11 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
       }
     }
   }
+  double sums[3] = {*total, *pmin, *pmax};
+  p_network->communicator().sum(sums,3);
+  *total = sums[0];
+  *pmin = sums[1];
+  *pmax = sums[2];
 }
 
 /**
-- 
2.43.0


From 5293a859880ee22315e16d4a427db39096d2980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 17/67] fix: bus without usable generators writes past an empty
 vector, reloaded bus keeps old reset values

---
 src/applications/components/pf_matrix/pf_components.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 8f55375..e9f6f26 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -400,6 +400,9 @@ void gridpack::powerflow::PFBus::load(
 
   // This routine may be called more than once, so clear all vectors
   p_pg.clear();
+  p_savePg.clear();
+  p_savePl.clear();
+  p_saveQl.clear();
   p_qg.clear();
   p_pFac.clear();
   p_pFac_orig.clear();
@@ -503,7 +506,7 @@ void gridpack::powerflow::PFBus::load(
         p_pFac[i] = p_pFac[i]/pcaptot;
         p_pFac_orig[i] = p_pFac[i];
       }
-    } else {
+    } else if (p_ngen > 0) {
       p_pFac[0] = 1.0;
       p_pFac_orig[0] = p_pFac[0];
     }
-- 
2.43.0


From b4619f14fda70985a2a264a3b3717b55ddd8ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 18/67] fix: list of frequency failures mixes up the
 contributions of processes

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index cbc3be8..2b38c81 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -2871,7 +2871,7 @@ std::vector<int> gridpack::dynamic_simulation::DSFullApp::getFrequencyFailures()
   comm.sum(&sizes[0],nproc);
 
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From f3cd4c17a2501877f6b185cb9d47d2965ee0fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 19/67] fix: exchange buffer accessors accept an index one past
 the end, branch receive buffer leaks

---
 src/network/base_network.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a878820..8c1f674 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -381,7 +381,7 @@ virtual ~BaseNetwork(void)
     }
     delete [] p_inactiveBranchIndices;
   }
-  if (p_branchSndBuf) {
+  if (p_branchRcvBuf) {
     delete [] ((char*)p_branchRcvBuf);
   }
   if (p_branchGASet) {
@@ -1671,7 +1671,7 @@ void clear(void)
     }
     delete [] p_inactiveBranchIndices;
   }
-  if (p_branchSndBuf) {
+  if (p_branchRcvBuf) {
     delete [] ((char*)p_branchRcvBuf);
   }
   if (p_branchGASet) {
@@ -1835,7 +1835,7 @@ void setXCBusBuffer(int idx, void* ptr)
  */
 void* getXCBusBuffer(int idx)
 {
-  if (idx < 0 || idx > p_buses.size()) {
+  if (idx < 0 || idx >= p_buses.size()) {
     char buf[256];
     sprintf(buf,"BaseNetwork::getXCBusBuffer: illegal index: %d size: %ld\n",
             idx, p_buses.size());
@@ -1921,7 +1921,7 @@ void freeXCBranch(void)
  */
 void* getXCBranchBuffer(int idx)
 {
-  if (idx < 0 || idx > p_branches.size()) {
+  if (idx < 0 || idx >= p_branches.size()) {
     char buf[256];
     sprintf(buf,"BaseNetwork::getXCBranchBuffer: illegal index: %d size: %ld\n",
       idx, p_branches.size());
-- 
2.43.0


From 5555ca653f33fbc0ffc317d7051a417d8e2adb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 20/67] fix: clean and clear leave stale index maps and
 reference bus

---
 src/network/base_network.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 8c1f674..152e933 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1380,8 +1380,11 @@ void clean(void)
     }
   }
   if (p_refBus != -1) {
-    p_refBus = buses[p_refBus];
+    p = buses.find(p_refBus);
+    p_refBus = (p != buses.end()) ? p->second : -1;
   }
+  // local indices have changed
+  setMap();
 }
 
 /**
@@ -1685,6 +1688,7 @@ void clear(void)
   // Get rid of all buses and branches
   p_buses.clear();
   p_branches.clear();
+  setMap();
 
   //reset all internal parameters to their initial state
   p_refBus = -1;
-- 
2.43.0


From 605a21f90bd5a9c6963e89de64b7a25f1daff4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 21/67] fix: branch update overruns arrays of one element per
 process

---
 src/network/base_network.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 152e933..657525e 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2234,8 +2234,8 @@ void initBranchUpdate(void)
     // Construct GA that can hold exchange data for all active branches
     int nprocs = GA_Pgroup_nnodes(grp);
     int me = GA_Pgroup_nodeid(grp);
-    int *totBranches = new int(nprocs);
-    int *distr = new int(nprocs);
+    int *totBranches = new int[nprocs];
+    int *distr = new int[nprocs];
     for (i=0; i<nprocs; i++) {
       if (me == i) {
         totBranches[i] = numBranches;
@@ -2306,8 +2306,8 @@ void initBranchUpdate(void)
         icnt++;
       }
     }
-    delete totBranches;
-    delete distr;
+    delete [] totBranches;
+    delete [] distr;
   }
   GA_Pgroup_sync(grp);
 }
-- 
2.43.0


From 20227dbe4dcd9f931395c100b7414169320b1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 22/67] fix: processes without buses or branches leave the
 ghost exchange of the others hanging

---
 src/factory/base_factory.hpp | 8 +++++++-
 src/network/base_network.hpp | 6 +++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/factory/base_factory.hpp b/src/factory/base_factory.hpp
index 57b029f..19d50f8 100644
--- a/src/factory/base_factory.hpp
+++ b/src/factory/base_factory.hpp
@@ -302,13 +302,18 @@ class BaseFactory {
       nbranch = p_numBranches;
 
       // Get size of bus and branch exchange buffers from first local bus and branch
-      // components. These must be the same for all bus and branch components
+      // components. These must be the same for all bus and branch components.
+      // Processes without any local bus or branch get the size from the others
 
       if (nbus > 0) {
         busXCSize = p_network->getBus(0)->getXCBufSize();
       } else {
         busXCSize = 0;
       }
+      char cmax[4];
+      strcpy(cmax,"max");
+      int grp = p_network->communicator().getGroup();
+      GA_Pgroup_igop(grp,&busXCSize,1,cmax);
       if (flag) {
         p_network->allocXCBus(busXCSize);
       } else {
@@ -320,6 +325,7 @@ class BaseFactory {
       } else {
         branchXCSize = 0;
       }
+      GA_Pgroup_igop(grp,&branchXCSize,1,cmax);
       if (flag) {
         p_network->allocXCBranch(branchXCSize);
       } else {
diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 657525e..1ba02ac 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1745,7 +1745,7 @@ void allocXCBus(int size)
     p_busXCBufSize = 0;
   }
   // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  if (size > 0) {
     p_busXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_busXCBuffers[i] = static_cast<void*>(new char[size]);
@@ -1882,15 +1882,15 @@ void allocXCBranch(int size)
     }
     delete [] p_branchXCBuffers;
     p_branchXCBufSize = 0;
-    p_external_branch = true;
   }
   // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  if (size > 0) {
     p_branchXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_branchXCBuffers[i] = static_cast<void*>(new char[size]);
     }
     p_allocatedBranch = true;
+    p_external_branch = false;
     p_branchXCBufSize = size;
   }
 }
-- 
2.43.0


From fa05df038a89c7598b8bb60c9b3364d4fce4229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 23/67] fix: ghost exchange aborts when the last processes own
 no buses or branches

---
 src/network/base_network.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 1ba02ac..b0d7e25 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2063,11 +2063,14 @@ void initBusUpdate(void)
       distr[i] = distr[i-1] + totBuses[i-1];
       p_busTotal += totBuses[i];
     }
+    // Leave out trailing processors that do not have any data
+    int nblocks = nprocs;
+    while (nblocks > 1 && distr[nblocks-1] >= p_busTotal) nblocks--;
     p_busGA = GA_Create_handle();
     int one = 1;
     p_busXCBufType = NGA_Register_type(p_busXCBufSize);
     GA_Set_data(p_busGA, one, &p_busTotal, p_busXCBufType);
-    GA_Set_irreg_distr(p_busGA, distr, &nprocs);
+    GA_Set_irreg_distr(p_busGA, distr, &nblocks);
     GA_Set_pgroup(p_busGA, grp);
     GA_Allocate(p_busGA);
     p_busGASet = true;
@@ -2252,11 +2255,14 @@ void initBranchUpdate(void)
       distr[i] = distr[i-1] + totBranches[i-1];
       p_branchTotal += totBranches[i];
     }
+    // Leave out trailing processors that do not have any data
+    int nblocks = nprocs;
+    while (nblocks > 1 && distr[nblocks-1] >= p_branchTotal) nblocks--;
     p_branchGA = GA_Create_handle();
     int one = 1;
     p_branchXCBufType = NGA_Register_type(p_branchXCBufSize);
     GA_Set_data(p_branchGA, one, &p_branchTotal, p_branchXCBufType);
-    GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
+    GA_Set_irreg_distr(p_branchGA, distr, &nblocks);
     GA_Set_pgroup(p_branchGA, grp);
     GA_Allocate(p_branchGA);
     p_branchGASet = true;
-- 
2.43.0


From f23e4ea70c9561d25d5db2cc6f240b4c64147523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 24/67] fix: processes receive several ghost copies of the same
 bus

---
 src/partition/graph_partitioner_implementation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/partition/graph_partitioner_implementation.cpp b/src/partition/graph_partitioner_implementation.cpp
index 5c212e6..4621a0f 100644
--- a/src/partition/graph_partitioner_implementation.cpp
+++ b/src/partition/graph_partitioner_implementation.cpp
@@ -62,7 +62,8 @@ GraphPartitionerImplementation::GraphPartitionerImplementation(const parallel::C
     p_node_destinations(local_nodes),
     p_edge_destinations(local_edges)
 {
-  // empty
+  gridpack::NoPrint *noprint = gridpack::NoPrint::instance();
+  p_no_print = noprint->status();
 }
 
 GraphPartitionerImplementation::~GraphPartitionerImplementation(void)
@@ -288,6 +289,7 @@ GraphPartitionerImplementation::partition(void)
   node_src.reset();
 
 
+  p_ghost_edge_destinations.clear();
   p_ghost_edge_destinations.reserve(locedges);
   std::copy(e2dest.begin(), e2dest.end(), 
             std::back_inserter(p_ghost_edge_destinations));
@@ -475,7 +477,7 @@ GraphPartitionerImplementation::partition(void)
       // there may be duplicates, so get rid of them
       if (tmpdest.size() > 1) {
         std::stable_sort(tmpdest.begin(), tmpdest.end());
-        std::unique(tmpdest.begin(), tmpdest.end());
+        tmpdest.erase(std::unique(tmpdest.begin(), tmpdest.end()), tmpdest.end());
       }
 
       p_ghost_node_destinations[n].reserve(tmpdest.size());
-- 
2.43.0


From b5c6f07c08f9de9d81d9cc27600a25ee162f4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 25/67] fix: partitioning aborts with fewer branches than
 processes or isolated buses

---
 src/partition/adjacency_list.cpp                  | 1 +
 src/partition/parmetis/parmetis_graph_wrapper.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/partition/adjacency_list.cpp b/src/partition/adjacency_list.cpp
index 9ba2652..e5dcc25 100644
--- a/src/partition/adjacency_list.cpp
+++ b/src/partition/adjacency_list.cpp
@@ -266,6 +266,7 @@ AdjacencyList::ready(void)
     int iproc = (me+p)%nprocs;
     NGA_Distribution(g_edges,iproc,&lo,&hi);
     int size = hi - lo + 1;
+    if (size <= 0) continue;
     int *buf = new int[size];
     int ld = 1;
     NGA_Get(g_edges,&lo,&hi,buf,&ld);
diff --git a/src/partition/parmetis/parmetis_graph_wrapper.cpp b/src/partition/parmetis/parmetis_graph_wrapper.cpp
index 84ea9ae..0ca59c1 100644
--- a/src/partition/parmetis/parmetis_graph_wrapper.cpp
+++ b/src/partition/parmetis/parmetis_graph_wrapper.cpp
@@ -298,7 +298,7 @@ ParMETISGraphWrapper::get_csr_local(std::vector<idx_t>& vtxdist,
   hi[0] = tmp.back() - 1;
   int nidxsize(hi[0] - lo[0] + 1);
   std::vector<int> nidx(nidxsize);
-  p_adjncy_gbl->get(&lo[0], &hi[0], &nidx[0], &ld[0]);
+  if (nidxsize > 0) p_adjncy_gbl->get(&lo[0], &hi[0], &nidx[0], &ld[0]);
 
   {  
     std::vector<int*> junkidx(nidx.size());
@@ -347,7 +347,7 @@ ParMETISGraphWrapper::set_partition(const std::vector<idx_t>& vtxdist,
   std::vector<int> tmp(part.size());
   std::copy(part.begin(), part.end(), tmp.begin());
 
-  p_node_data->put(lo, hi, &tmp[0], ld);
+  if (!tmp.empty()) p_node_data->put(lo, hi, &tmp[0], ld);
   communicator().sync();
   // p_node_data->print();
 }
-- 
2.43.0


From 9cfac5f4df7fa712cd82be25b733fce2ad759239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 26/67] fix: mappers abort when processes own no buses or
 branches

---
 src/mapper/full_map.hpp       | 21 +++++++++++++++------
 src/mapper/gen_matrix_map.hpp | 14 ++++++++++----
 src/mapper/gen_slab_map.hpp   | 10 ++++++++--
 src/mapper/gen_vector_map.hpp | 10 ++++++++--
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index f05b463..83a0011 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -758,11 +758,14 @@ void setupOffsetArrays()
 //  printf("p[%d] (FullMatrixMap) minRow: %d maxRow: %d\n",p_me,p_minRowIndex,p_maxRowIndex);
   // Create array to hold information about desired rows
   int nRows = p_maxRowIndex-p_minRowIndex+1;
+  if (nRows < 0) nRows = 0;
   int *iSizes = new int[nRows]; 
   int *jSizes = new int[nRows]; 
   GA_Pgroup_sync(p_GAgrp);
-  NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
-  NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  if (nRows > 0) {
+    NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
+    NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  }
 
   // Calculate total number of elements associated with row block and column
   // block associated with this processor
@@ -826,10 +829,14 @@ void setupOffsetArrays()
   delete [] itmp;
   delete [] jtmp;
 
+  // Leave out trailing processors that do not have any buses
+  int nblocks = p_nNodes;
+  while (nblocks > 1 && mapc[nblocks-1] >= p_totalBuses) nblocks--;
+
   // Create arrays that will hold final offsets
   gaOffsetI = GA_Create_handle();
   GA_Set_data(gaOffsetI, one, &p_totalBuses, C_INT);
-  GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
+  GA_Set_irreg_distr(gaOffsetI, mapc, &nblocks);
   GA_Set_pgroup(gaOffsetI,p_GAgrp);
   if (!GA_Allocate(gaOffsetI)) {
     char buf[256];
@@ -841,7 +848,7 @@ void setupOffsetArrays()
 
   gaOffsetJ = GA_Create_handle();
   GA_Set_data(gaOffsetJ, one, &p_totalBuses, C_INT);
-  GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
+  GA_Set_irreg_distr(gaOffsetJ, mapc, &nblocks);
   GA_Set_pgroup(gaOffsetJ,p_GAgrp);
   if (!GA_Allocate(gaOffsetJ)) {
     char buf[256];
@@ -854,8 +861,10 @@ void setupOffsetArrays()
   // Evaluate offsets for this processor
   int *iOffsets = new int[nRows]; 
   int *jOffsets = new int[nRows]; 
-  iOffsets[0] = offsetArrayISize;
-  jOffsets[0] = offsetArrayJSize;
+  if (nRows > 0) {
+    iOffsets[0] = offsetArrayISize;
+    jOffsets[0] = offsetArrayJSize;
+  }
   for (i=1; i<nRows; i++) {
     iOffsets[i] = iOffsets[i-1] + iSizes[i-1];
     jOffsets[i] = jOffsets[i-1] + jSizes[i-1];
diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index dd2c41b..11f1f15 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -395,10 +395,16 @@ void setOffsets(void)
   delete [] t_busMap;
   delete [] t_branchMap;
 
+  // Leave out trailing processors that do not have any data
+  int nbusblk = p_nNodes;
+  while (nbusblk > 1 && busMap[nbusblk-1] >= total_buses) nbusblk--;
+  int nbranchblk = p_nNodes;
+  while (nbranchblk > 1 && branchMap[nbranchblk-1] >= total_branches) nbranchblk--;
+
   int one = 1;
   g_bus_row_offsets = GA_Create_handle();
   GA_Set_data(g_bus_row_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
+  GA_Set_irreg_distr(g_bus_row_offsets, busMap, &nbusblk);
   GA_Set_pgroup(g_bus_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_row_offsets)) {
     char buf[256];
@@ -410,7 +416,7 @@ void setOffsets(void)
 
   g_bus_column_offsets = GA_Create_handle();
   GA_Set_data(g_bus_column_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_column_offsets, busMap, &p_nNodes);
+  GA_Set_irreg_distr(g_bus_column_offsets, busMap, &nbusblk);
   GA_Set_pgroup(g_bus_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_column_offsets)) {
     char buf[256];
@@ -422,7 +428,7 @@ void setOffsets(void)
 
   g_branch_row_offsets = GA_Create_handle();
   GA_Set_data(g_branch_row_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &p_nNodes);
+  GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &nbranchblk);
   GA_Set_pgroup(g_branch_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_row_offsets)) {
     char buf[256];
@@ -434,7 +440,7 @@ void setOffsets(void)
 
   g_branch_column_offsets = GA_Create_handle();
   GA_Set_data(g_branch_column_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &p_nNodes);
+  GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &nbranchblk);
   GA_Set_pgroup(g_branch_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_column_offsets)) {
     char buf[256];
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index d6b5837..7aeedb7 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -473,10 +473,16 @@ void setOffsets(void)
   delete [] t_busMap;
   delete [] t_branchMap;
 
+  // Leave out trailing processors that do not have any data
+  int nbusblk = p_nNodes;
+  while (nbusblk > 1 && busMap[nbusblk-1] >= total_buses) nbusblk--;
+  int nbranchblk = p_nNodes;
+  while (nbranchblk > 1 && branchMap[nbranchblk-1] >= total_branches) nbranchblk--;
+
   int one = 1;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
+  GA_Set_irreg_distr(g_bus_offsets, busMap, &nbusblk);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
     char buf[256];
@@ -488,7 +494,7 @@ void setOffsets(void)
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
+  GA_Set_irreg_distr(g_branch_offsets, branchMap, &nbranchblk);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
     char buf[256];
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index 2eabdfc..a3589bd 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -351,10 +351,16 @@ void setOffsets(void)
   delete [] t_busMap;
   delete [] t_branchMap;
 
+  // Leave out trailing processors that do not have any data
+  int nbusblk = p_nNodes;
+  while (nbusblk > 1 && busMap[nbusblk-1] >= total_buses) nbusblk--;
+  int nbranchblk = p_nNodes;
+  while (nbranchblk > 1 && branchMap[nbranchblk-1] >= total_branches) nbranchblk--;
+
   int one = 1;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
+  GA_Set_irreg_distr(g_bus_offsets, busMap, &nbusblk);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
     char buf[256];
@@ -366,7 +372,7 @@ void setOffsets(void)
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
+  GA_Set_irreg_distr(g_branch_offsets, branchMap, &nbranchblk);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
     char buf[256];
-- 
2.43.0


From fde620d6a68a1e9c04b15be979b54d0f3ffd39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 27/67] fix: generalized matrix mapper drops branch elements of
 columns owned by another process

---
 src/mapper/gen_matrix_map.hpp | 48 +++++------------------------------
 1 file changed, 7 insertions(+), 41 deletions(-)

diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index 11f1f15..885da95 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -595,9 +595,9 @@ void numberNonZeros(void)
         int *cols = new int[nvals];
         p_network->getBus(i)->matrixGetValues(values, rows, cols);
         for (j=0; j<nvals; j++) {
-//          if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
+          if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
             p_nz_per_row[rows[j]-p_minRowIndex]++;
-//          }
+          }
         }
         delete [] rows;
         delete [] cols;
@@ -609,28 +609,13 @@ void numberNonZeros(void)
     nvals = p_network->getBranch(i)->matrixNumValues();
     if (nvals > p_maxValues) p_maxValues = nvals;
     if (nvals > 0) {
-      int ncols = p_network->getBranch(i)->matrixNumCols();
-      int rmin, rmax;
-      bool isActive = p_network->getActiveBranch(i);
-      if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
-      }
       gridpack::ComplexType *values = new gridpack::ComplexType[nvals];
       int *rows = new int[nvals];
       int *cols = new int[nvals];
       p_network->getBranch(i)->matrixGetValues(values, rows, cols);
       for (j=0; j<nvals; j++) {
         if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
-          if (ncols > 0) {
-            if (cols[j] >= rmin && cols[j] <= rmax) {
-              if (isActive) p_nz_per_row[rows[j]-p_minRowIndex]++;
-            } else {
-              p_nz_per_row[rows[j]-p_minRowIndex]++;
-            }
-          } else {
-            p_nz_per_row[rows[j]-p_minRowIndex]++;
-          }
+          p_nz_per_row[rows[j]-p_minRowIndex]++;
         }
       }
       delete [] rows;
@@ -683,33 +668,14 @@ void loadBranchData(gridpack::math::Matrix &matrix, bool flag)
   for (i=0; i<p_nBranches; i++) {
     nvals = p_network->getBranch(i)->matrixNumValues();
     if (nvals > 0) {
-      int ncols = p_network->getBranch(i)->matrixNumCols();
-      int rmin, rmax;
-      bool isActive = p_network->getActiveBranch(i);
-      if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
-      }
       p_network->getBranch(i)->matrixGetValues(values,rows,cols);
-      bool addElem;
       for (j=0; j<nvals; j++) {
+        // Each row belongs to one processor so no element is added twice
         if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
-          addElem = false;
-          if (ncols > 0) {
-            if (cols[j] >= rmin && cols[j] <= rmax) {
-              if (isActive) addElem = true;
-            } else {
-              addElem = true;
-            }
+          if (flag) {
+            matrix.addElement(rows[j],cols[j],values[j]);
           } else {
-            addElem = true;
-          }
-          if (addElem) {
-            if (flag) {
-              matrix.addElement(rows[j],cols[j],values[j]);
-            } else {
-              matrix.setElement(rows[j],cols[j],values[j]);
-            }
+            matrix.setElement(rows[j],cols[j],values[j]);
           }
         }
       }
-- 
2.43.0


From 7d65b53c75a1f3a4dee141cd04dba87f6d078e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 28/67] fix: mappers abort when zeroing offsets of a process
 between others that owns no buses

---
 src/mapper/full_map.hpp       |  9 ++++++---
 src/mapper/gen_matrix_map.hpp | 16 +++++++++++-----
 src/mapper/gen_slab_map.hpp   | 16 +++++++++++-----
 src/mapper/gen_vector_map.hpp | 16 +++++++++++-----
 4 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index 83a0011..e2a5bf8 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -829,9 +829,12 @@ void setupOffsetArrays()
   delete [] itmp;
   delete [] jtmp;
 
-  // Leave out trailing processors that do not have any buses
-  int nblocks = p_nNodes;
-  while (nblocks > 1 && mapc[nblocks-1] >= p_totalBuses) nblocks--;
+  // Leave out processors that do not have any buses
+  int nblocks = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? mapc[i+1] : p_totalBuses);
+    if (next > mapc[i]) mapc[nblocks++] = mapc[i];
+  }
 
   // Create arrays that will hold final offsets
   gaOffsetI = GA_Create_handle();
diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index 885da95..521e2b8 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -395,11 +395,17 @@ void setOffsets(void)
   delete [] t_busMap;
   delete [] t_branchMap;
 
-  // Leave out trailing processors that do not have any data
-  int nbusblk = p_nNodes;
-  while (nbusblk > 1 && busMap[nbusblk-1] >= total_buses) nbusblk--;
-  int nbranchblk = p_nNodes;
-  while (nbranchblk > 1 && branchMap[nbranchblk-1] >= total_branches) nbranchblk--;
+  // Leave out processors that do not have any data
+  int nbusblk = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? busMap[i+1] : total_buses);
+    if (next > busMap[i]) busMap[nbusblk++] = busMap[i];
+  }
+  int nbranchblk = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? branchMap[i+1] : total_branches);
+    if (next > branchMap[i]) branchMap[nbranchblk++] = branchMap[i];
+  }
 
   int one = 1;
   g_bus_row_offsets = GA_Create_handle();
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index 7aeedb7..cd6ac47 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -473,11 +473,17 @@ void setOffsets(void)
   delete [] t_busMap;
   delete [] t_branchMap;
 
-  // Leave out trailing processors that do not have any data
-  int nbusblk = p_nNodes;
-  while (nbusblk > 1 && busMap[nbusblk-1] >= total_buses) nbusblk--;
-  int nbranchblk = p_nNodes;
-  while (nbranchblk > 1 && branchMap[nbranchblk-1] >= total_branches) nbranchblk--;
+  // Leave out processors that do not have any data
+  int nbusblk = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? busMap[i+1] : total_buses);
+    if (next > busMap[i]) busMap[nbusblk++] = busMap[i];
+  }
+  int nbranchblk = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? branchMap[i+1] : total_branches);
+    if (next > branchMap[i]) branchMap[nbranchblk++] = branchMap[i];
+  }
 
   int one = 1;
   g_bus_offsets = GA_Create_handle();
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index a3589bd..6ad77c3 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -351,11 +351,17 @@ void setOffsets(void)
   delete [] t_busMap;
   delete [] t_branchMap;
 
-  // Leave out trailing processors that do not have any data
-  int nbusblk = p_nNodes;
-  while (nbusblk > 1 && busMap[nbusblk-1] >= total_buses) nbusblk--;
-  int nbranchblk = p_nNodes;
-  while (nbranchblk > 1 && branchMap[nbranchblk-1] >= total_branches) nbranchblk--;
+  // Leave out processors that do not have any data
+  int nbusblk = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? busMap[i+1] : total_buses);
+    if (next > busMap[i]) busMap[nbusblk++] = busMap[i];
+  }
+  int nbranchblk = 0;
+  for (i=0; i<p_nNodes; i++) {
+    int next = (i < p_nNodes-1 ? branchMap[i+1] : total_branches);
+    if (next > branchMap[i]) branchMap[nbranchblk++] = branchMap[i];
+  }
 
   int one = 1;
   g_bus_offsets = GA_Create_handle();
-- 
2.43.0


From f91d592b4ffda562e33ce5030d36d3943d9e2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 29/67] fix: reference bus index is stale after the network is
 redistributed

---
 src/network/base_network.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index b0d7e25..104f86a 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1234,6 +1234,12 @@ void partition(void)
   }
   setMap();
 
+  // local indices have changed
+  p_refBus = -1;
+  for (size_t i=0; i<p_buses.size(); i++) {
+    if (p_buses[i].p_refFlag) p_refBus = static_cast<int>(i);
+  }
+
   /* initialize network analytics functionality */
   int nbus = p_buses.size();
   for (size_t i=0; i<nbus; i++) {
-- 
2.43.0


From dfccdce8a0e3fa60524b3ba4c4be4b8474d8b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 30/67] fix: dense slab mapper aborts when a process
 contributes no rows

---
 src/mapper/gen_slab_map.hpp                    | 13 ++++++++-----
 src/math/petsc/petsc_matrix_implementation.hpp |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index cd6ac47..5cd1ebd 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -327,19 +327,22 @@ void getDimensions(void)
   char plus[2];
   strcpy(plus,"+");
   GA_Pgroup_igop(p_GAgrp, sizebuf, p_nNodes, plus);
+  // Processes that do not contribute any rows can use any number of columns
   int maxCols, minCols;
+  maxCols = nCols;
+  char cmax[4];
+  strcpy(cmax,"max");
+  GA_Pgroup_igop(p_GAgrp, &maxCols, 1, cmax);
   if (!okCols) {
     minCols = -1;
+  } else if (nRows == 0) {
+    minCols = maxCols;
   } else {
     minCols = nCols;
   }
   char cmin[4];
   strcpy(cmin,"min");
   GA_Pgroup_igop(p_GAgrp, &minCols, 1, cmin);
-  maxCols = nCols;
-  char cmax[4];
-  strcpy(cmax,"max");
-  GA_Pgroup_igop(p_GAgrp, &maxCols, 1, cmax);
   if (maxCols != minCols) okCols = false;
   if (!okCols && p_me == 0) {
     char buf[512];
@@ -348,7 +351,7 @@ void getDimensions(void)
   }
   // Get total row dimension and evaluate offsets for processor
   p_Dim = sizebuf[0];
-  p_nColumns = nCols;
+  p_nColumns = maxCols;
   p_Offsets[0] = 0;
   for (i=1; i<p_nNodes; i++) {
     p_Dim += sizebuf[i];
diff --git a/src/math/petsc/petsc_matrix_implementation.hpp b/src/math/petsc/petsc_matrix_implementation.hpp
index 91314e8..fa7f3b8 100644
--- a/src/math/petsc/petsc_matrix_implementation.hpp
+++ b/src/math/petsc/petsc_matrix_implementation.hpp
@@ -137,8 +137,10 @@ public:
     try {
       PetscInt grow(global_rows > 0 ? global_rows : PETSC_DETERMINE);
       PetscInt gcol(global_cols > 0 ? global_cols : PETSC_DETERMINE);
-      PetscInt lrow(local_rows > 0 ? local_rows : PETSC_DECIDE);
-      PetscInt lcol(local_cols > 0 ? local_cols : PETSC_DECIDE);
+      // Without a global dimension, a local dimension of zero means that this
+      // process does not own any rows or columns
+      PetscInt lrow(local_rows > 0 || global_rows <= 0 ? local_rows : PETSC_DECIDE);
+      PetscInt lcol(local_cols > 0 || global_cols <= 0 ? local_cols : PETSC_DECIDE);
 
       ierr = PetscSplitOwnership(comm, &lrow, &grow); CHKERRXX(ierr);
       ierr = PetscSplitOwnership(comm, &lcol, &gcol); CHKERRXX(ierr);
-- 
2.43.0


From d28e9d7118d2fbffdd88c4cb77084b9953deccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 31/67] fix: undoing a contingency that lists an element twice
 leaves it out of service

---
 src/applications/modules/powerflow/pf_app_module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index be03a61..de3f6e3 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -931,7 +931,8 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
   if (event.p_type == Generator) {
     int ngen = event.p_busid.size();
     int i, j, idx, jdx;
-    for (i=0; i<ngen; i++) {
+    // undo in reverse order in case an element is listed more than once
+    for (i=ngen-1; i>=0; i--) {
       idx = event.p_busid[i];
       std::string tag = event.p_genid[i];
       std::vector<int> lids = p_network->getLocalBusIndices(idx);
@@ -948,7 +949,7 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
     int to, from;
     int nline = event.p_to.size();
     int i, j, idx, jdx;
-    for (i=0; i<nline; i++) {
+    for (i=nline-1; i>=0; i--) {
       to = event.p_to[i];
       from = event.p_from[i];
       std::string tag = event.p_ckt[i];
-- 
2.43.0


From 97fed962993b281a589e011a300cb34cb1690b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 32/67] fix: voltage-controlled bus writes two state values
 into a block of size one

---
 src/applications/components/pf_matrix/pf_components.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e9f6f26..61ec078 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -191,7 +191,11 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
     values[0] = ret;
     return true;
   } else if (p_mode == State) {
+    // only fill as many values as were declared by vectorSize
     values[0] = p_v;
+#ifndef LARGE_MATRIX
+    if (!p_isPV)
+#endif
     values[1] = p_a;
     return true;
   } else if (p_mode == RHS) {
@@ -210,7 +214,11 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
 bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 {
   if (p_mode == State) {
+    // only fill as many values as were declared by vectorSize
     values[0] = p_v;
+#ifndef LARGE_MATRIX
+    if (!p_isPV)
+#endif
     values[1] = p_a;
     return true;
   }
-- 
2.43.0


From 535f1e8dbc97ffcfae20f110dc8879fea2e70c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 33/67] fix: power flow solution is misread by buses converted
 in the Q limit check

---
 .../modules/powerflow/pf_app_module.cpp       | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index de3f6e3..adc47d6 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -531,6 +531,19 @@ bool gridpack::powerflow::PFAppModule::solve()
     }
 
     if (iter >= p_max_iteration) ret = false;
+    // Push final result back onto buses. This must be done before any bus
+    // changes its type in the Q limit check, since the layout of X depends on it
+    timer->start(t_bmap);
+    p_factory->setMode(RHS);
+    vMap.mapToBus(X);
+    timer->stop(t_bmap);
+
+    // Make sure that ghost buses have up-to-date values before printing out
+    // results
+    timer->start(t_updt);
+    p_network->updateBuses();
+    timer->stop(t_updt);
+
     if (p_qlim == 0) {
       repeat = false;
     } else {
@@ -543,17 +556,6 @@ bool gridpack::powerflow::PFAppModule::solve()
         }
       }
     }
-    // Push final result back onto buses
-    timer->start(t_bmap);
-    p_factory->setMode(RHS);
-    vMap.mapToBus(X);
-    timer->stop(t_bmap);
-
-    // Make sure that ghost buses have up-to-date values before printing out
-    // results
-    timer->start(t_updt);
-    p_network->updateBuses();
-    timer->stop(t_updt);
   }
   timer->stop(t_total);
   return ret;
-- 
2.43.0


From 40911fa849e71b01cf85b4cca005cd01985b8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 34/67] fix: ghost copies of an isolated bus add empty rows to
 the mapped matrix

---
 src/mapper/full_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index e2a5bf8..302be3b 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -564,6 +564,8 @@ void loadBusArrays(int * iSizeArray, int * jSizeArray,
 #endif
   for (i = 0; i < p_nBuses; i++) {
 //    jSize = 0;
+    // the size of a block is determined by the process that owns the bus
+    if (!p_network->getActiveBus(i)) continue;
     status = p_network->getBus(i)->matrixDiagSize(&iSize, &jSize);
     int isave = iSize;
     if (status) {
-- 
2.43.0


From 017cb2fb9eef7d865286d0c331b384d35fdc85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 35/67] fix: component state lost when buses and branches are
 serialized

PFBus left out the generator output and reactive limit bookkeeping, the
second saved PV flag and the original isolated flag (queries on a copy
read past the end of empty lists), PFBranch ratings B and C, and branch
base class its global index.
---
 src/applications/components/pf_matrix/pf_components.hpp | 9 ++++++---
 src/component/base_component.hpp                        | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 8a30a67..a864487 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -521,17 +521,20 @@ private:
       & p_vs & p_gid
       & p_pt & p_pb
       & p_pl & p_ql & p_ip & p_iq & p_yp & p_yq
+      & p_savePg & p_qg_save
       & p_savePl & p_saveQl
       & p_lstatus & p_lid
       & p_sbase
       & p_Pinj & p_Qinj
       & p_vmin & p_vmax
       & p_isPV
-      & p_saveisPV
+      & p_saveisPV & p_save2isPV
+      & p_qlim
       & p_ngen & p_type & p_nload
       & p_area & p_zone
       & p_source & p_sink
-      & p_rtpr_scale;
+      & p_rtpr_scale
+      & p_original_isolated;
   }  
 
 };
@@ -739,7 +742,7 @@ private:
       & p_shunt_admt_g2
       & p_shunt_admt_b2
       & p_xform & p_shunt 
-      & p_rateA
+      & p_rateA & p_rateB & p_rateC
       & p_branch_status
       & p_ckt
       & p_mode
diff --git a/src/component/base_component.hpp b/src/component/base_component.hpp
index 9065508..e9f9426 100644
--- a/src/component/base_component.hpp
+++ b/src/component/base_component.hpp
@@ -762,6 +762,7 @@ class BaseBranchComponent
      ar & boost::serialization::base_object<BaseComponent>(*this)
        & p_originalBus1Index
        & p_originalBus2Index
+       & p_globalIndex
        & p_globalBus1Index
        & p_globalBus2Index;
   }
-- 
2.43.0


From 81fa27cb8f7685cff6235d51e6ee12e5a4cfb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 36/67] fix: backlash follows the wrong side of the band when
 its input falls

---
 .../dynamic_simulation_dae/model_classes/BackLashClass.cpp      | 2 +-
 .../dynamic_simulation_full_y/model_classes/BackLashClass.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/BackLashClass.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/BackLashClass.cpp
index 5b1d488..d8df2fd 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/BackLashClass.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/BackLashClass.cpp
@@ -55,7 +55,7 @@ double BackLashClass::Output(double theInput)
     if (theInput > LastOutput + Db2)
       Result = theInput -Db2; // Going up -dB2
     else 
-      Result = theInput -Db2; // Going down -Db2    
+      Result = theInput + Db2; // Going down +Db2
     LastOutput = Result;
   }
   return Result;
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
index 8ec19f6..ca96891 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
@@ -55,7 +55,7 @@ double gridpack::dynamic_simulation::BackLashClass::Output(double theInput)
     if (theInput > LastOutput + Db2)
       Result = theInput -Db2; // Going up -dB2
     else 
-      Result = theInput -Db2; // Going down -Db2    
+      Result = theInput + Db2; // Going down +Db2
     LastOutput = Result;
   }
   return Result;
-- 
2.43.0


From 3409f1a3f9ddc51bb5f3190878bce7b3f129e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 37/67] fix: intentional dead band truncates its input and
 tests an unset value

---
 .../model_classes/DBIntClass.cpp                       | 10 +++++-----
 .../model_classes/DBIntClass.cpp                       | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/DBIntClass.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/DBIntClass.cpp
index 268f23d..5bab38c 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/DBIntClass.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/DBIntClass.cpp
@@ -41,8 +41,8 @@ void DBIntClass::Initialize(double theDb1, double theEps, double theInit)
 {
   InitialValue = theInit;
   State = 0;
-  Db1 = abs(theDb1); // Negatives not allowed
-  Eps = abs(theEps);
+  Db1 = fabs(theDb1); // Negatives not allowed
+  Eps = fabs(theEps);
   if (Eps > Db1) Eps = Db1; // Don't allow it to be larger
   //printf("theDb1 = %f, theEps = %f, theInit = %f\n", theDb1, theEps, theInit);
   //printf("Db1 = %f, Eps = %f, InitialValue = %f\n", Db1, Eps, InitialValue);
@@ -56,7 +56,7 @@ double DBIntClass::Output(double anInput)
   double Result;
   anInput = anInput - InitialValue; // InitialValue almost always zero
   // Most common situation when deadband resulting in no output
-  if (abs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
+  if (fabs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
     Result = 0;
   // No Hysteresis
   else if (Eps == 0) { // Must be eitehr > Db1 or < -Db1
@@ -89,14 +89,14 @@ double DBIntClass::Output(double anInput)
   // Do remaining case with Eps > 0 and Eps < Db1.
   // Note we covered the case with input < Db1 with State=0 above
   } else {
-    if (Result >= Db1) {
+    if (anInput >= Db1) {
       Result = anInput - Db1 + Eps;
       State = 1;
     } else if (anInput <= -Db1) {
       Result = anInput + Db1 - Eps;
       State = 2;
     } else { // Cover case of close to zero
-      if (abs(anInput) <= Db1 - Eps) {
+      if (fabs(anInput) <= Db1 - Eps) {
         Result = 0;
         State = 0;
       } else if (anInput > 0) { // Between Db1-Eps and Db1
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
index 5629972..f970342 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
@@ -41,8 +41,8 @@ void gridpack::dynamic_simulation::DBIntClass::Initialize(double theDb1, double
 {
   InitialValue = theInit;
   State = 0;
-  Db1 = abs(theDb1); // Negatives not allowed
-  Eps = abs(theEps);
+  Db1 = fabs(theDb1); // Negatives not allowed
+  Eps = fabs(theEps);
   if (Eps > Db1) Eps = Db1; // Don't allow it to be larger
   //printf("theDb1 = %f, theEps = %f, theInit = %f\n", theDb1, theEps, theInit);
   //printf("Db1 = %f, Eps = %f, InitialValue = %f\n", Db1, Eps, InitialValue);
@@ -56,7 +56,7 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
   double Result;
   anInput = anInput - InitialValue; // InitialValue almost always zero
   // Most common situation when deadband resulting in no output
-  if (abs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
+  if (fabs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
     Result = 0;
   // No Hysteresis
   else if (Eps == 0) { // Must be eitehr > Db1 or < -Db1
@@ -89,14 +89,14 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
   // Do remaining case with Eps > 0 and Eps < Db1.
   // Note we covered the case with input < Db1 with State=0 above
   } else {
-    if (Result >= Db1) {
+    if (anInput >= Db1) {
       Result = anInput - Db1 + Eps;
       State = 1;
     } else if (anInput <= -Db1) {
       Result = anInput + Db1 - Eps;
       State = 2;
     } else { // Cover case of close to zero
-      if (abs(anInput) <= Db1 - Eps) {
+      if (fabs(anInput) <= Db1 - Eps) {
         Result = 0;
         State = 0;
       } else if (anInput > 0) { // Between Db1-Eps and Db1
-- 
2.43.0


From 864614012c73a1480ae8b44435a16bf0c8f95787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 38/67] fix: piecewise function is undefined between points
 given in decreasing order

---
 .../dynamic_simulation_full_y/dblock.cpp      | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
index ba150ea..fb7551a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
@@ -143,13 +143,14 @@ PiecewiseSlope::PiecewiseSlope(void)
 
 void PiecewiseSlope::setparams(int n, double *uin, double *yin)
 {
-  double u[2],y[2],ya,yb;
+  double u[2],y[2];
   int    i;
 
   // Check the slope direction - increasing or decreasing
   if(uin[1] > uin[0]) p_increasing = true;
   else p_increasing = false;
-  
+
+  p_n = 0;
   for(i=0; i < n-1; i++) {
     // Check if the segment is valid, i.e., monotonically increasing or decreasing
     if((p_increasing && uin[i+1] > uin[i]) || (!p_increasing && uin[i+1] < uin[i])) {
@@ -158,7 +159,12 @@ void PiecewiseSlope::setparams(int n, double *uin, double *yin)
       p_y[p_n]   = yin[i];
       p_y[p_n+1] = yin[i+1];
 
-      p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      // Slope expects the end points in increasing order of the input
+      int lo = p_increasing ? p_n : p_n+1;
+      int hi = p_increasing ? p_n+1 : p_n;
+      u[0] = p_u[lo]; u[1] = p_u[hi];
+      y[0] = p_y[lo]; y[1] = p_y[hi];
+      p_slopes[p_n].setparams(u,y,y[0],y[1]);
       p_n++;
     }
   }
@@ -175,7 +181,9 @@ double PiecewiseSlope::getoutput(double u)
   if(!p_increasing && u <= p_u[p_n]) yout = p_y[p_n];
 
   for(i=0; i < p_n; i++) {
-    if(p_u[i] <= u && u <= p_u[i+1]) {
+    double ulo = p_increasing ? p_u[i] : p_u[i+1];
+    double uhi = p_increasing ? p_u[i+1] : p_u[i];
+    if(ulo <= u && u <= uhi) {
       yout = p_slopes[i].getoutput(u);
     }
   }
@@ -187,14 +195,20 @@ double PiecewiseSlope::init_given_y(double yout)
 {
   int i;
   double u;
+  // Output values may increase or decrease from the first point to the last
+  bool yincreasing = p_y[p_n] >= p_y[0];
   
-  if(p_increasing  && yout <= p_y[0])   u = p_u[0];
-  if(p_increasing  && yout >= p_y[p_n]) u = p_u[p_n];
-  if(!p_increasing && yout >= p_y[0])   u = p_u[0];
-  if(!p_increasing && yout <= p_y[p_n]) u = p_u[p_n];
+  if(yincreasing  && yout <= p_y[0])   u = p_u[0];
+  if(yincreasing  && yout >= p_y[p_n]) u = p_u[p_n];
+  if(!yincreasing && yout >= p_y[0])   u = p_u[0];
+  if(!yincreasing && yout <= p_y[p_n]) u = p_u[p_n];
 
   for (i=0; i<p_n; i++) {
-    if (p_y[i] <= yout && yout <= p_y[i+1]) {
+    if (p_y[i] == p_y[i+1]) {
+      // No unique input on a horizontal segment
+      if (yout == p_y[i]) u = p_u[i];
+    } else if ((p_y[i] <= yout && yout <= p_y[i+1]) ||
+        (p_y[i+1] <= yout && yout <= p_y[i])) {
       u = p_u[i] + (p_u[i+1] - p_u[i]) / (p_y[i+1] - p_y[i]) * (yout - p_y[i]);
     }
   }
-- 
2.43.0


From 47e7186c6151edd478930f72df2e1cd9a7377d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 39/67] fix: GAST governor ignores the rotor speed and starts
 with the wrong droop

---
 .../dynamic_simulation_full_y/model_classes/gast.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
index 5e8a8dd..ab61b22 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
@@ -93,7 +93,7 @@ void gridpack::dynamic_simulation::GastModel::init(double mag, double ang, doubl
 
   double lv_gate_in1 = AT + KT*(AT - exh_temp_block_out);
 
-  Pref = fuel_valve_block_in + delta_w*R; // Here the assumption is lv_gate_in1 > fuel_valve_block_in.
+  Pref = fuel_valve_block_in + droop; // Here the assumption is lv_gate_in1 > fuel_valve_block_in.
   // If this condition is not satisfied then Pref value is indeterminate.
 }
 
@@ -162,9 +162,9 @@ void gridpack::dynamic_simulation::GastModel::setMechanicalPower(double pmech)
  * Set the rotor speed deviation inside the governor
  * @param delta_o value of the rotor speed deviation
  */
-void gridpack::dynamic_simulation::GastModel::setRotorSpeedDeviation(double delta_w)
+void gridpack::dynamic_simulation::GastModel::setRotorSpeedDeviation(double dw)
 {
-  delta_w = delta_w;
+  delta_w = dw;
 }
 
 /** 
-- 
2.43.0


From 9bb2f9dbcf6a4039b3b4b54e64216bb5d6a30385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 40/67] fix: HYGOV governor ignores the rotor speed and leaves
 the temporary droop unset

---
 .../dynamic_simulation_full_y/model_classes/hygov.cpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index 6c3c8b7..8bd9118 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -54,7 +54,7 @@ void gridpack::dynamic_simulation::HygovModel::load(
     data, int idx)
 {
   if (!data->getValue(GOVERNOR_R, &R, idx)) R = 0.05;
-  if (!data->getValue(GOVERNOR_r, &r, idx)) R = 0.05; 
+  if (!data->getValue(GOVERNOR_r, &r, idx)) r = 0.05; 
   if (!data->getValue(GOVERNOR_TR, &TR, idx)) TR = 0.5;
   if (!data->getValue(GOVERNOR_TF, &TF, idx)) TF = 3.0; 
   if (!data->getValue(GOVERNOR_TG, &TG, idx)) TG = 10.0;
@@ -166,9 +166,9 @@ void gridpack::dynamic_simulation::HygovModel::setMechanicalPower(double pmech)
  * Set the rotor speed deviation inside the governor
  * @param delta_o value of the rotor speed deviation
  */
-void gridpack::dynamic_simulation::HygovModel::setRotorSpeedDeviation(double delta_w)
+void gridpack::dynamic_simulation::HygovModel::setRotorSpeedDeviation(double dw)
 {
-  delta_w = delta_w;
+  delta_w = dw;
 }
 
 /** 
-- 
2.43.0


From 907c9c1cc018b8282b8a1a99f495774cd2cf6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 41/67] fix: WSIEG1 governor does not use the limits widened
 for its starting point

---
 .../dynamic_simulation_full_y/model_classes/wsieg1.cpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
index 22b7238..2812b7a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
@@ -186,15 +186,16 @@ void gridpack::dynamic_simulation::Wsieg1Model::init(double mag, double ang, dou
   GV = u4; // GV can be used in the next time step, not a local variable like u1-u9
   
   u3 = u4; // Deadband Db2_blk's input equals the output
-  u2 = P_blk.init_given_y(u3);
-  
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (GV > Pmax) Pmax = GV+0.1;
     if (GV < Pmin) Pmin = GV-0.1;
+    P_blk.setparams(1.0, Pmin, Pmax);
 	if (GV > Uo) Uo = GV+0.1;
     if (GV < Uc) Uc = GV-0.1;
   }
 
+  u2 = P_blk.init_given_y(u3);
+
   GV0 = GV;
   
   if(T1 != 0 && T2 != 0) {
-- 
2.43.0


From 36ee93df8133add4d86122b8d48eb2ff7d26b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 42/67] fix: SEXS exciter applies the output limits to the
 input of its gain when started

---
 .../modules/dynamic_simulation_full_y/model_classes/sexs.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp
index 90e634f..62d50bc 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp
@@ -100,7 +100,7 @@ void gridpack::dynamic_simulation::SexsModel::init(double Vm, double ang, double
   if(!zero_TE) {
     y1 = filterblock.init_given_y(Efd);
   } else {
-    y1 = std::min(EMAX,std::max(EMIN,Efd/K));
+    y1 = Efd/K;
   }
 
   // Initialize first block
-- 
2.43.0


From c222703b60ec03f6ac8ae8c6e0839b6ea1c98d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 43/67] fix: EXDC1 lead-lag uses the wrong time constants and
 the reference the wrong signs

---
 .../modules/dynamic_simulation_full_y/model_classes/exdc1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
index e6c177c..8164020 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
@@ -95,7 +95,7 @@ void gridpack::dynamic_simulation::Exdc1Model::load(
   }
 
   if(has_leadlag) {
-    Leadlag_blk.setparams(TA,TB);
+    Leadlag_blk.setparams(TC,TB);
   }
 
   if(!zero_TA) {
@@ -161,7 +161,7 @@ void gridpack::dynamic_simulation::Exdc1Model::init(double Vm, double Va, double
   } else leadlag_blk_in = VLL;
 
   double Verr;
-  Verr = leadlag_blk_in - VF + Vs;
+  Verr = leadlag_blk_in + VF - Vs;
       
   if(!zero_TR) {
     Vmeas = Vmeas_blk.init_given_u(Ec);
-- 
2.43.0


From 46805ca2a9776aade54a2a90a0bf2a7e6e40b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 44/67] fix: ESST1A skips its second lead-lag, uses the wrong
 regulator limits and fails without time constants

---
 .../model_classes/esst1a.cpp                  | 78 ++++++++++++++-----
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 7913906..9c7a102 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -129,26 +129,30 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
 
   HVGate_blk1.setparams(Vuel); // is UEL Vuel?
 
-  Leadlag_blkBC.setparams(Tc, Tb);
-  Leadlag_blkBC1.setparams(Tc1, Tb1);
-
-  if(!zero_TA) {
-    Regulator_blk.setparams(Ka,Ta,Vrmin,Vrmax,-1000.0,1000.0);
-  } else {
-    Regulator_gain_blk.setparams(Ka,Vrmin,Vrmax);
+  if(!zero_TB) {
+    Leadlag_blkBC.setparams(Tc, Tb);
+  }
+  if(!zero_TB1) {
+    Leadlag_blkBC1.setparams(Tc1, Tb1);
   }
 
   HVGate_blk2.setparams(Vuel); // UEL is Vuel?
   LVGate_blk.setparams(Voel); // Where to read Voel from? Set it by funciton call as Vuel?
 
-  double a[2], b[2];
-  a[0] = Tf; a[1] = 1.0;
-  b[0] = Kf; b[1] = 0.0;
-  Feedback_blkF.setcoeffs(a, b);
+  if(!zero_TF) {
+    double a[2], b[2];
+    a[0] = Tf; a[1] = 1.0;
+    b[0] = Kf; b[1] = 0.0;
+    Feedback_blkF.setcoeffs(a, b);
+  }
   
   Vterm = mag;
   
-  Vf = Feedback_blkF.init_given_u(Efd);
+  if(!zero_TF) {
+    Vf = Feedback_blkF.init_given_u(Efd);
+  } else {
+    Vf = 0.0;
+  }
   
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (Efd > (Vterm * Vrmax - Kc * LadIfd)) Vrmax = (Efd + Kc * LadIfd) / Vterm+0.21;
@@ -182,11 +186,27 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
     if (VA > Vamax) Vamax = VA+0.1;
     if (VA < Vamin) Vamin = VA-0.1;
   }
-  VLL1 = Regulator_blk.init_given_y(VA);
 
+  // Regulator limits are Vamin and Vamax, after their adjustment
+  if(!zero_TA) {
+    Regulator_blk.setparams(Ka,Ta,Vamin,Vamax,-1000.0,1000.0);
+    VLL1 = Regulator_blk.init_given_y(VA);
+  } else {
+    Regulator_gain_blk.setparams(Ka,Vamin,Vamax);
+    VLL1 = VA/Ka;
+  }
 
-  VLL = Leadlag_blkBC1.init_given_y(VLL1);
-  double u1 = Leadlag_blkBC.init_given_y(VLL);
+  if(!zero_TB1) {
+    VLL = Leadlag_blkBC1.init_given_y(VLL1);
+  } else {
+    VLL = VLL1;
+  }
+  double u1;
+  if(!zero_TB) {
+    u1 = Leadlag_blkBC.init_given_y(VLL);
+  } else {
+    u1 = VLL;
+  }
 
   // HV Gate?
   // assume HV gate always take feedforward path during initialization, may need to adjust Vuel
@@ -202,7 +222,11 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double Vop = 0.0;
   if (UEL == 1.0) Vop += Vuel;
   if (VOS == 1.0) Vop += Vothsg;
-  Vmeas = Filter_blkR.init_given_u(Vcomp);
+  if(!zero_TR) {
+    Vmeas = Filter_blkR.init_given_u(Vcomp);
+  } else {
+    Vmeas = Vcomp;
+  }
   Vref = u1 + Vmeas - Vop + Vf;
 
 }
@@ -223,7 +247,11 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
   if (VOS == 1.0) Vop += Vothsg;
   double Verr = Vref - Vmeas + Vop;
 
-  Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  if(!zero_TF) {
+    Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  } else {
+    Vf = 0.0;
+  }
 
   double leadlag_blk_in = Verr - Vf;
 
@@ -234,14 +262,22 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
 
   if (UEL == 2.0) leadlag_blk_in = HVGate_blk1.getoutput(leadlag_blk_in);
 
-  VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
-  
-  VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true); 
+  if(!zero_TB) {
+    VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  } else {
+    VLL = leadlag_blk_in;
+  }
+
+  if(!zero_TB1) {
+    VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true);
+  } else {
+    VLL1 = VLL;
+  }
 
   if (zero_TA) {
     VA = Regulator_gain_blk.getoutput(VLL1);
   } else {
-    VA = Regulator_blk.getoutput(VLL, t_inc, int_flag, true);
+    VA = Regulator_blk.getoutput(VLL1, t_inc, int_flag, true);
   }
 
   double u1 = 0.0;
-- 
2.43.0


From a51673efc837121a99a5b58cf0e2191e5e3f2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 45/67] fix: ESST4B reads KPM as KIM and does not use the
 limits widened for its starting point

---
 .../model_classes/esst4b.cpp                    | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
index b5de42b..ef9c38e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
@@ -57,7 +57,7 @@ void gridpack::dynamic_simulation::Esst4bModel::load(
   if (!data->getValue(EXCITER_VRMIN, &Vrmin, idx)) Vrmin = 0.0; // Vrmin
   if (!data->getValue(EXCITER_TA, &Ta, idx)) Ta = 0.0; // Ta
   if (!data->getValue(EXCITER_KPM, &Kpm, idx)) Kpm = 0.0; // Kpm
-  if (!data->getValue(EXCITER_KPM, &Kim, idx)) Kim = 0.0; // Kim
+  if (!data->getValue(EXCITER_KIM, &Kim, idx)) Kim = 0.0; // Kim
   if (!data->getValue(EXCITER_VMMAX, &Vmmax, idx)) Vmmax = 0.0; // Vmmax
   if (!data->getValue(EXCITER_VMMIN, &Vmmin, idx)) Vmmin = 0.0; // Vmax
   if (!data->getValue(EXCITER_KG, &Kg, idx)) Kg = 0.0; // Kg
@@ -191,19 +191,10 @@ void gridpack::dynamic_simulation::Esst4bModel::init(double mag, double ang, dou
   }
   /*---else {a gain=1 block}---*/
 
-  if (!zero_KIR) {
-    PIControl_blkR.setparams(Kpr, Kir, Vrmin, Vrmax, -10000.0, 10000.0);
-  }
-  /*---else {a gain=Kpr block}---*/
-  
   if (!zero_TA) {
     Filter_blkA.setparams(1.0, Ta);
   }
   
-  if (!zero_KIM) {
-    PIControl_blmM.setparams(Kpm, Kim, Vmmin, Vmmax, -10000.0, 10000.0);
-  }
-  
   LVGate_blk.setparams(Voel);
   
   double u1, u2, u3, u4;
@@ -224,13 +215,14 @@ void gridpack::dynamic_simulation::Esst4bModel::init(double mag, double ang, dou
   
   
   if (!zero_KIM) {
-    u2 = PIControl_blmM.init_given_y(u1);
     // Check limits here, but these would be 
     // initial state limit violations that are not possible!
     if (OptionToModifyLimitsForInitialStateLimitViolation) {
       if (u1 > Vmmax) Vmmax = u1+0.1;
       if (u1 < Vmmin) Vmmin = u1-0.1;
     }
+    PIControl_blmM.setparams(Kpm, Kim, Vmmin, Vmmax, -10000.0, 10000.0);
+    u2 = PIControl_blmM.init_given_y(u1);
   } else {
     u2 = u1/Kpm;
   }
@@ -242,13 +234,14 @@ void gridpack::dynamic_simulation::Esst4bModel::init(double mag, double ang, dou
   }
   
   if (!zero_KIR) {
-    u4 = PIControl_blkR.init_given_y(u3);
     // Check limits here, but these would be 
     // initial state limit violations that are not possible!
     if (OptionToModifyLimitsForInitialStateLimitViolation) {
       if (u3 > Vrmax) Vrmax = u3+0.1;
       if (u3 < Vrmin) Vrmin = u3-0.1;
     }
+    PIControl_blkR.setparams(Kpr, Kir, Vrmin, Vrmax, -10000.0, 10000.0);
+    u4 = PIControl_blkR.init_given_y(u3);
   } else {
     u4 = u3/Kpr;
   }
-- 
2.43.0


From cd31b4a2fadc2dd5f48e5d38a6b442f3e0d5e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 46/67] fix: state estimation leaves matrix rows of isolated
 buses and their neighbors undefined

---
 .../components/se_matrix/se_components.cpp    | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index eff37d3..8c7f264 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -22,6 +22,25 @@
 #include "gridpack/parser/dictionary.hpp"
 #include "se_components.hpp"
 
+namespace {
+
+/**
+ * Check whether a branch is attached to an isolated bus. Such a branch does
+ * not carry any flow and its measurements are ignored
+ * @param branch pointer to branch
+ * @return true if a bus at either end of the branch is isolated
+ */
+bool attachedToIsolatedBus(const gridpack::state_estimation::SEBranch *branch)
+{
+  gridpack::state_estimation::SEBus *bus1 =
+    dynamic_cast<gridpack::state_estimation::SEBus*>(branch->getBus1().get());
+  gridpack::state_estimation::SEBus *bus2 =
+    dynamic_cast<gridpack::state_estimation::SEBus*>(branch->getBus2().get());
+  return bus1->isIsolated() || bus2->isIsolated();
+}
+
+} // namespace
+
 //#define LARGE_MATRIX
 
 /**
@@ -188,6 +207,7 @@ void gridpack::state_estimation::SEBus::setValues(gridpack::ComplexType *values)
 int gridpack::state_estimation::SEBus::vectorNumElements() const
 {
   if (p_mode == Jacobian_H) {
+    if (isIsolated()) return 0;
     return p_meas.size();
   }
   return 0;
@@ -571,6 +591,7 @@ void gridpack::state_estimation::SEBus::configureSE(void)
   int ncnt = 0;
   int i, j, nsize;
   int busid = getOriginalIndex();
+  if (isIsolated()) nmeas = 0;
   for (i=0; i<nmeas; i++) {
 //   if (!isIsolated()) {
     std::string type = p_meas[i].p_type;
@@ -587,6 +608,7 @@ void gridpack::state_estimation::SEBus::configureSE(void)
       for (j=0; j<nsize; j++) {
         SEBranch *branch
           = dynamic_cast<SEBranch*>(branch_nghbrs[j].get());
+        if (attachedToIsolatedBus(branch)) continue;
         SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
         if (bus == this) bus = dynamic_cast<SEBus*>(branch->getBus2().get());
         if (!bus->getReferenceBus()) {
@@ -653,6 +675,7 @@ void gridpack::state_estimation::SEBus::saveData(
  */
 int gridpack::state_estimation::SEBus::matrixNumRows() const
 {
+  if (isIsolated()) return 0;
   return p_meas.size();
 }
 
@@ -699,6 +722,7 @@ int gridpack::state_estimation::SEBus::matrixNumCols() const
 //     return 0;
 //   }
   } else if (p_mode == R_inv) {
+    if (isIsolated()) return 0;
     return p_meas.size();
   }
   return 0;
@@ -797,6 +821,7 @@ int gridpack::state_estimation::SEBus::matrixNumValues() const
   if (p_mode == Jacobian_H) {
     return p_numElements;
   } else if (p_mode == R_inv) {
+    if (isIsolated()) return 0;
     return p_meas.size();
   }
   return 0;
@@ -1064,6 +1089,7 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
          for (j=0; j<nsize; j++) {
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
+           if (attachedToIsolatedBus(branch)) continue;
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
           ComplexType yfbus;
           if (bus == this) {
@@ -1091,6 +1117,7 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
          for (j=0; j<nsize; j++) {
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
+           if (attachedToIsolatedBus(branch)) continue;
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
           ComplexType yfbus;
           if (bus == this) {
@@ -1656,6 +1683,7 @@ void gridpack::state_estimation::SEBranch::configureSE(void)
  */
 int gridpack::state_estimation::SEBranch::matrixNumRows() const
 {
+  if (attachedToIsolatedBus(this)) return 0;
   return p_meas.size();
 }
 
@@ -1668,6 +1696,7 @@ int gridpack::state_estimation::SEBranch::matrixNumCols() const
   if (p_mode == Jacobian_H) {
     return 0;
   } else if (p_mode == R_inv) {
+    if (attachedToIsolatedBus(this)) return 0;
     return p_meas.size();
   }
   return 0;
@@ -1764,6 +1793,7 @@ int gridpack::state_estimation::SEBranch::matrixNumValues() const
   if (p_mode == Jacobian_H) {
     return p_numElements;
   } else if (p_mode == R_inv) {
+    if (attachedToIsolatedBus(this)) return 0;
     return p_meas.size();
   }
   return 0;
@@ -2159,6 +2189,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
 int gridpack::state_estimation::SEBranch::vectorNumElements() const
 {
   if (p_mode == Jacobian_H) {
+    if (attachedToIsolatedBus(this)) return 0;
     return p_meas.size();
   }
   return 0;
-- 
2.43.0


From ba670cc53d6ad4c8416891bb4983c6d2372e4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 47/67] fix: state estimation treats flows on line elements
 that are out of service as if in service

---
 .../components/se_matrix/se_components.cpp    | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 8c7f264..f714349 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1658,7 +1658,7 @@ void gridpack::state_estimation::SEBranch::configureSE(void)
     if (type == "PIJ" || type == "QIJ" || type == "IIJ" || type == "PJI" || type == "QJI" || type == "IJI") {
       int nsize = p_tag.size();
       for (j=0; j<nsize; j++) {
-        if (p_tag[j] == ckt) {
+        if (p_tag[j] == ckt && p_branch_status[j]) {
           if (!bus1->getReferenceBus()) {
             ncnt += 2;
           } else {  // reference bus, only for dPIJ/DVI
@@ -1836,7 +1836,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       if (type == "PIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt && p_branch_status[j]) {
             found = true;
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
@@ -1898,7 +1898,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "QIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt && p_branch_status[j]) {
             found = true;
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
@@ -1959,7 +1959,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "IIJ") {  // Need more work to support transformer 
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt && p_branch_status[j]) {
             found = true;
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
@@ -2035,7 +2035,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "PJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt && p_branch_status[j]) {
             found = true;
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
@@ -2097,7 +2097,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "QJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt && p_branch_status[j]) {
             found = true;
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
@@ -2269,6 +2269,9 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       std::string type = p_meas[i].p_type;
       int idx1, idx2;
       double gij,bij,t,shifter;
+      // no flow unless the measured line element is in service
+      ret1 = 0.0;
+      ret2 = 0.0;
       idx1 = getBus1OriginalIndex();
       idx2 = getBus2OriginalIndex();
       gridpack::ComplexType a(1.0,0.0);
@@ -2276,7 +2279,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       if (type == "PIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
+          if (p_tag[j] == p_meas[i].p_ckt && p_branch_status[j]) {
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             ret = 1.0/ret;
             gij=real(ret);
@@ -2296,7 +2299,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       } else if (type == "QIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
+          if (p_tag[j] == p_meas[i].p_ckt && p_branch_status[j]) {
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
             ret = 1.0/ret;
@@ -2317,7 +2320,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       } else if (type == "IIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
+          if (p_tag[j] == p_meas[i].p_ckt && p_branch_status[j]) {
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
             ret = 1.0/ret;
@@ -2341,7 +2344,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       } else if (type == "PJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
+          if (p_tag[j] == p_meas[i].p_ckt && p_branch_status[j]) {
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             ret = 1.0/ret;
             gij=real(ret);
@@ -2361,7 +2364,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       } else if (type == "QJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
+          if (p_tag[j] == p_meas[i].p_ckt && p_branch_status[j]) {
             gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
             double B=0.5*p_charging[j];
             ret = 1.0/ret;
-- 
2.43.0


From 853d3930e3260e890da0f215f482819a3d68291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 48/67] fix: state estimation Jacobian of branch flows includes
 the shunt of the bus, which is not part of the flow

---
 .../components/se_matrix/se_components.cpp            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index f714349..59ff1cc 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1822,9 +1822,6 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
 
     v1 = bus1->getVoltage();
     v2 = bus2->getVoltage();
-    double gs1, bs1, gs2, bs2;
-    bus1->getShuntGsBs(&gs1,&bs1);
-    bus2->getShuntGsBs(&gs2,&bs2);
     theta = bus1->getPhase() - bus2->getPhase();  
     //    int ref = getRef(this);
 
@@ -1860,14 +1857,14 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               ncnt++;
               jm = bus1->matrixGetColIndex(1);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
+                  +bij*sin(theta+shifter)) +2*gij*v1/(t*t),0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
             } else {  // reference bus, only for dPIJ/DVI
               jm = bus1->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
+                  +bij*sin(theta+shifter)) +2*gij*v1/(t*t),0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
@@ -2080,14 +2077,14 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               ncnt++;
               jm = bus2->matrixGetColIndex(1);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
+                    +bij*sin(-theta-shifter))+2*gij*v2,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
             } else {  // reference bus, only for dPIJ/DVJ
               jm = bus2->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
+                    +bij*sin(-theta-shifter))+2*gij*v2,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
-- 
2.43.0


From d645a1c4f7d6c032100baeea32b0a00ea97f3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 49/67] fix: state estimation Jacobian of current measurements
 is wrong for charging and transformers and missing for IJI

---
 .../components/se_matrix/se_components.cpp    | 119 ++++++++++--------
 1 file changed, 64 insertions(+), 55 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 59ff1cc..c6b2558 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1953,81 +1953,68 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
             }
           } 
         }
-      } else if (type == "IIJ") {  // Need more work to support transformer 
+      } else if (type == "IIJ" || type == "IJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == ckt && p_branch_status[j]) {
             found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
+            // Square of current magnitude at measured end of line element is
+            // |Yii*vi+Yij*vj|^2 where vi is the voltage at the measured end
+            gridpack::ComplexType yii, yij, c;
+            double vi, vj, sgn;
+            if (type == "IIJ") {
+              getLineElements(ckt,&yii,&yij);
+              vi = v1;
+              vj = v2;
+              sgn = 1.0;
             } else {
-              shifter=0.0;
-              t=1.0;
+              getRvrsLineElements(ckt,&yii,&yij);
+              vi = v2;
+              vj = v1;
+              sgn = -1.0;
+            }
+            c = yii*conj(yij);
+            double cs = cos(sgn*theta);
+            double sn = sin(sgn*theta);
+            double p = vi*vi*real(yii) + vi*vj*(real(yij)*cs+imag(yij)*sn);
+            double q = -vi*vi*imag(yii) + vi*vj*(real(yij)*sn-imag(yij)*cs);
+            double cur = sqrt(p*p+q*q)/vi;
+            double da = 0.0, dvi = 0.0, dvj = 0.0;
+            // derivative does not exist if there is no current
+            if (cur > 0.0) {
+              da = -vi*vj*(real(c)*sn+imag(c)*cs)/cur;
+              dvi = (vi*real(yii*conj(yii)) + vj*(real(c)*cs-imag(c)*sn))/cur;
+              dvj = (vj*real(yij*conj(yij)) + vi*(real(c)*cs-imag(c)*sn))/cur;
             }
-            double Iij = sqrt((gij*gij+bij*bij) *(v1*v1+v2*v2-2*v1*v2*cos(theta))); 
             if (!bus1->getReferenceBus()) {
               jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
+              values[ncnt] = gridpack::ComplexType(sgn*da,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
               jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dIIJ/DVI
+            } else {
               jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
             }
+            values[ncnt] = gridpack::ComplexType(sgn > 0.0 ? dvi : dvj,0.0);
+            rows[ncnt] = im;
+            cols[ncnt] = jm;
+            ncnt++;
             if (!bus2->getReferenceBus()) {
               jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType(-(gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
+              values[ncnt] = gridpack::ComplexType(-sgn*da,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
               jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dIIJ/DVJ
+            } else {
               jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
             }
-          } 
+            values[ncnt] = gridpack::ComplexType(sgn > 0.0 ? dvj : dvi,0.0);
+            rows[ncnt] = im;
+            cols[ncnt] = jm;
+            ncnt++;
+          }
         }
       } else if (type == "PJI") {
         int nsize = p_tag.size();
@@ -2152,7 +2139,6 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
             }
           } 
         }
-      } else if (type == "IJI") {  // TO DO
       }
       if (!found) {
         printf("No match found for branch measurement\n   type: %s\n"
@@ -2379,7 +2365,30 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
         }
         values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
         ncnt++;
-      } else if (type == "IJI") { //to do
+      } else if (type == "IJI") {
+        int nsize = p_tag.size();
+        for (j=0; j<nsize; j++) {
+          if (p_tag[j] == p_meas[i].p_ckt && p_branch_status[j]) {
+            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
+            double B=0.5*p_charging[j];
+            ret = 1.0/ret;
+            gij=real(ret);
+            bij=imag(ret);
+            if (p_tap_ratio[j] != 0.0) {
+              shifter=p_phase_shift[j];
+              t = p_tap_ratio[j];
+            } else {
+              shifter=0.0;
+              t=1.0;
+            }
+            ret1 =  v2*v2*gij - 1.0/t*v1*v2*(gij*cos(-theta-shifter) + bij*sin(-theta-shifter));
+            ret2 = - v2*v2* (bij+B) - 1.0/t*v1*v2*(gij*sin(-theta-shifter) - bij*cos(-theta-shifter));
+          }
+        }
+        ret3 = sqrt(ret1*ret1+ret2*ret2)/v2;
+        //         values[ncnt] = p_meas[i].p_value-ret;
+        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret3),0.0);
+        ncnt++;
       }
     } 
     }
-- 
2.43.0


From defab8208e84a801ac764d692ed8b22f0ba5afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 50/67] fix: start reading a list of strings at its first line

---
 src/stream/input_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/input_stream.cpp b/src/stream/input_stream.cpp
index 12f1f87..a8aae60 100644
--- a/src/stream/input_stream.cpp
+++ b/src/stream/input_stream.cpp
@@ -52,6 +52,7 @@ bool gridpack::stream::InputStream::openStringVector(const std::vector<std::stri
 {
   if (fileVec.size() == 0) return false;
   p_fileVector = fileVec;
+  p_fileIterator = p_fileVector.begin();
   p_srcVector = true;
   p_isOpen = true;
   return true;
-- 
2.43.0


From 21d6edd9f9cfd630f854020301d01628c1e3676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 51/67] fix: return a last line that does not end with a
 newline

---
 src/stream/input_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/input_stream.cpp b/src/stream/input_stream.cpp
index a8aae60..8c0a003 100644
--- a/src/stream/input_stream.cpp
+++ b/src/stream/input_stream.cpp
@@ -84,7 +84,7 @@ bool gridpack::stream::InputStream::nextLine(std::string &line)
   bool ret = false;
   if (p_isOpen) {
     if (p_srcFile) {
-      ret = std::getline(p_fout, line).good();
+      ret = !std::getline(p_fout, line).fail();
     } else {
       if (p_fileIterator != p_fileVector.end()) {
         line = *p_fileIterator;
-- 
2.43.0


From 7a7771d312e1bf948b1bc54ebf0dc8e382d1abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 52/67] fix: store the ownership fractions of branches as real
 values

---
 src/parser/block_parsers/branch_parser33.cpp      | 8 ++++----
 src/parser/block_parsers/branch_parser34.cpp      | 8 ++++----
 src/parser/block_parsers/transformer_parser33.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser34.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser35.cpp | 8 ++++----
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/parser/block_parsers/branch_parser33.cpp b/src/parser/block_parsers/branch_parser33.cpp
index 47fffd5..b07dc6d 100644
--- a/src/parser/block_parsers/branch_parser33.cpp
+++ b/src/parser/block_parsers/branch_parser33.cpp
@@ -180,7 +180,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 17) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[17].c_str()), nelems);
+        atof(split_line[17].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 18) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -188,7 +188,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 19) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[19].c_str()), nelems);
+        atof(split_line[19].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 20) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -196,7 +196,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 21) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[21].c_str()), nelems);
+        atof(split_line[21].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 22) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -204,7 +204,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 23) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[23].c_str()), nelems);
+        atof(split_line[23].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/branch_parser34.cpp b/src/parser/block_parsers/branch_parser34.cpp
index bd824d4..b3ce173 100644
--- a/src/parser/block_parsers/branch_parser34.cpp
+++ b/src/parser/block_parsers/branch_parser34.cpp
@@ -216,7 +216,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 27) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[27].c_str()), nelems);
+        atof(split_line[27].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 28) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -224,7 +224,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 29) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[29].c_str()), nelems);
+        atof(split_line[29].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 30) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -232,7 +232,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 31) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[31].c_str()), nelems);
+        atof(split_line[31].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 32) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -240,7 +240,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 33) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[33].c_str()), nelems);
+        atof(split_line[33].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index aa84a90..bec4e6f 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -481,7 +481,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -495,7 +495,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -509,7 +509,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -523,7 +523,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 8669214..15b11f5 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -518,7 +518,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -532,7 +532,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -546,7 +546,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -560,7 +560,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index db42c33..3ecbede 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -517,7 +517,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -531,7 +531,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -545,7 +545,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -559,7 +559,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
-- 
2.43.0


From 66a0646140b4bef1bf9e5462a9ab7ec759444d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 53/67] fix: record the orientation of two-winding transformers

---
 src/parser/block_parsers/transformer_parser33.cpp | 3 +++
 src/parser/block_parsers/transformer_parser34.cpp | 3 +++
 src/parser/block_parsers/transformer_parser35.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index bec4e6f..015154a 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -415,6 +415,9 @@ void gridpack::parser::TransformerParser33::parse(
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
 
+      // BRANCH_SWITCHED                          boolean
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Add remaining parameters from line 1
       /*
        * type: integer
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 15b11f5..2e2c3cc 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -452,6 +452,9 @@ void gridpack::parser::TransformerParser34::parse(
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
 
+      // BRANCH_SWITCHED                          boolean
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Add remaining parameters from line 1
       /*
        * type: integer
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 3ecbede..f9bf042 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -451,6 +451,9 @@ void gridpack::parser::TransformerParser35::parse(
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
 
+      // BRANCH_SWITCHED                          boolean
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Add remaining parameters from line 1
       /*
        * type: integer
-- 
2.43.0


From 3efc562c43348141c92f5c64fc75f7faa6dc6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 54/67] fix: give transformers behind three-winding ones their
 own branch index

---
 src/parser/block_parsers/transformer_parser33.cpp | 8 ++------
 src/parser/block_parsers/transformer_parser34.cpp | 8 ++------
 src/parser/block_parsers/transformer_parser35.cpp | 8 ++------
 3 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 015154a..20d4f58 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -58,9 +58,6 @@ void gridpack::parser::TransformerParser33::parse(
 
   std::pair<int, int>   branch_pair;
 
-  // Save current number of branches
-  int index = p_branchData.size();
-
   bool wind3X = true;
 
   while(test_end(line)) {
@@ -393,7 +390,7 @@ void gridpack::parser::TransformerParser33::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
@@ -405,8 +402,7 @@ void gridpack::parser::TransformerParser33::parse(
 
         // add pair to branch map
         p_branchMap->insert(std::pair<std::pair<int,int>,int >
-            (branch_pair, index));
-        index++;
+            (branch_pair, l_idx));
       }
 
       // Clean up 2 character tag
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 2e2c3cc..dbc3967 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -59,9 +59,6 @@ void gridpack::parser::TransformerParser34::parse(
 
   std::pair<int, int>   branch_pair;
 
-  // Save current number of branches
-  int index = p_branchData.size();
-
   bool wind3X = true;
 
   while(test_end(line)) {
@@ -430,7 +427,7 @@ void gridpack::parser::TransformerParser34::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
@@ -442,8 +439,7 @@ void gridpack::parser::TransformerParser34::parse(
 
         // add pair to branch map
         p_branchMap->insert(std::pair<std::pair<int,int>,int >
-            (branch_pair, index));
-        index++;
+            (branch_pair, l_idx));
       }
 
       // Clean up 2 character tag
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index f9bf042..14c674c 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -58,9 +58,6 @@ void gridpack::parser::TransformerParser35::parse(
 
   std::pair<int, int>   branch_pair;
 
-  // Save current number of branches
-  int index = p_branchData.size();
-
   bool wind3X = true;
 
   while(test_end(line)) {
@@ -429,7 +426,7 @@ void gridpack::parser::TransformerParser35::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
@@ -441,8 +438,7 @@ void gridpack::parser::TransformerParser35::parse(
 
         // add pair to branch map
         p_branchMap->insert(std::pair<std::pair<int,int>,int >
-            (branch_pair, index));
-        index++;
+            (branch_pair, l_idx));
       }
 
       // Clean up 2 character tag
-- 
2.43.0


From b7e8a1b858be0ae31a4808c7bf6b06a490e0f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 55/67] fix: convert three-winding transformer impedances to
 the system base

---
 .../block_parsers/transformer_parser33.cpp    | 29 ++++++++++---------
 .../block_parsers/transformer_parser34.cpp    | 29 ++++++++++---------
 .../block_parsers/transformer_parser35.cpp    | 29 ++++++++++---------
 3 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 20d4f58..7e39286 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -179,6 +179,21 @@ void gridpack::parser::TransformerParser33::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // convert R and X values to system base, if necessary
+        if (atoi(split_line[5].c_str()) != 1) {
+          if (sb12 != p_case_sbase && sb12 != 0.0) {
+            r12 = r12*p_case_sbase/sb12;
+            x12 = x12*p_case_sbase/sb12;
+          }
+          if (sb23 != p_case_sbase && sb23 != 0.0) {
+            r23 = r23*p_case_sbase/sb23;
+            x23 = x23*p_case_sbase/sb23;
+          }
+          if (sb31 != p_case_sbase && sb31 != 0.0) {
+            r31 = r31*p_case_sbase/sb31;
+            x31 = x31*p_case_sbase/sb31;
+          }
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -188,20 +203,6 @@ void gridpack::parser::TransformerParser33::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         int index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index dbc3967..bc5a6ba 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -180,6 +180,21 @@ void gridpack::parser::TransformerParser34::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // convert R and X values to system base, if necessary
+        if (atoi(split_line[5].c_str()) != 1) {
+          if (sb12 != p_case_sbase && sb12 != 0.0) {
+            r12 = r12*p_case_sbase/sb12;
+            x12 = x12*p_case_sbase/sb12;
+          }
+          if (sb23 != p_case_sbase && sb23 != 0.0) {
+            r23 = r23*p_case_sbase/sb23;
+            x23 = x23*p_case_sbase/sb23;
+          }
+          if (sb31 != p_case_sbase && sb31 != 0.0) {
+            r31 = r31*p_case_sbase/sb31;
+            x31 = x31*p_case_sbase/sb31;
+          }
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -189,20 +204,6 @@ void gridpack::parser::TransformerParser34::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         int index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 14c674c..9f3fb7d 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -179,6 +179,21 @@ void gridpack::parser::TransformerParser35::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // convert R and X values to system base, if necessary
+        if (atoi(split_line[5].c_str()) != 1) {
+          if (sb12 != p_case_sbase && sb12 != 0.0) {
+            r12 = r12*p_case_sbase/sb12;
+            x12 = x12*p_case_sbase/sb12;
+          }
+          if (sb23 != p_case_sbase && sb23 != 0.0) {
+            r23 = r23*p_case_sbase/sb23;
+            x23 = x23*p_case_sbase/sb23;
+          }
+          if (sb31 != p_case_sbase && sb31 != 0.0) {
+            r31 = r31*p_case_sbase/sb31;
+            x31 = x31*p_case_sbase/sb31;
+          }
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -188,20 +203,6 @@ void gridpack::parser::TransformerParser35::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         int index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
-- 
2.43.0


From f2bbf63b838040146375b25f967cf408015bd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 56/67] fix: leave transformer impedances given on the system
 base unscaled

---
 src/parser/block_parsers/transformer_parser33.cpp | 7 ++++---
 src/parser/block_parsers/transformer_parser34.cpp | 7 ++++---
 src/parser/block_parsers/transformer_parser35.cpp | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 7e39286..4530a62 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -428,8 +428,9 @@ void gridpack::parser::TransformerParser33::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -565,7 +566,7 @@ void gridpack::parser::TransformerParser33::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -580,7 +581,7 @@ void gridpack::parser::TransformerParser33::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index bc5a6ba..c3258f6 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -465,8 +465,9 @@ void gridpack::parser::TransformerParser34::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -600,7 +601,7 @@ void gridpack::parser::TransformerParser34::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -615,7 +616,7 @@ void gridpack::parser::TransformerParser34::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 9f3fb7d..482ec3e 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -464,8 +464,9 @@ void gridpack::parser::TransformerParser35::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -599,7 +600,7 @@ void gridpack::parser::TransformerParser35::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -614,7 +615,7 @@ void gridpack::parser::TransformerParser35::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
-- 
2.43.0


From 4311ab9a647059267dd649dd0c0e93a74ecbbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 57/67] fix: store the ratings of windings 2 and 3 on their own
 branches

---
 .../block_parsers/transformer_parser34.cpp    | 60 +++++++++----------
 .../block_parsers/transformer_parser35.cpp    | 60 +++++++++----------
 2 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index c3258f6..ca485c0 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -277,21 +277,21 @@ void gridpack::parser::TransformerParser34::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -327,21 +327,21 @@ void gridpack::parser::TransformerParser34::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 482ec3e..d76b052 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -276,21 +276,21 @@ void gridpack::parser::TransformerParser35::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -326,21 +326,21 @@ void gridpack::parser::TransformerParser35::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
-- 
2.43.0


From 0853f3c03a1aebcaecce755f48ae9474d83acd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 58/67] fix: store the twelfth transformer rating under its own
 name

---
 src/parser/block_parsers/transformer_parser35.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index d76b052..5e3f962 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -659,7 +659,7 @@ void gridpack::parser::TransformerParser35::parse(
           atof(split_line3[12].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE11,
           atof(split_line3[13].c_str()),nelems);
-      p_branchData[l_idx]->addValue(BRANCH_RATE11,
+      p_branchData[l_idx]->addValue(BRANCH_RATE12,
           atof(split_line3[14].c_str()),nelems);
 
       /*
-- 
2.43.0


From 215452aa6ee37001b5f8610b6fa3e3e331092485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 59/67] fix: set the ratings of version 34 and 35 two-winding
 transformers

---
 src/parser/block_parsers/transformer_parser34.cpp | 8 +++++++-
 src/parser/block_parsers/transformer_parser35.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index ca485c0..0d57bd7 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -636,8 +636,14 @@ void gridpack::parser::TransformerParser34::parse(
 
       /*
        * type: float
-       * BRANCH_RATE1-12
+       * BRANCH_RATING_A-C and BRANCH_RATE1-12
        */
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE1,
           atof(split_line3[3].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE2,
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 5e3f962..c738491 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -635,8 +635,14 @@ void gridpack::parser::TransformerParser35::parse(
 
       /*
        * type: float
-       * BRANCH_RATE1-12
+       * BRANCH_RATING_A-C and BRANCH_RATE1-12
        */
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE1,
           atof(split_line3[3].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE2,
-- 
2.43.0


From b0149600034ac54aaeaafa9d1f3f31a9e581a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 60/67] fix: read multi-section line records of any length

---
 src/parser/block_parsers/multi_section_parser33.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/block_parsers/multi_section_parser33.cpp b/src/parser/block_parsers/multi_section_parser33.cpp
index dfff3ab..bc04c8a 100644
--- a/src/parser/block_parsers/multi_section_parser33.cpp
+++ b/src/parser/block_parsers/multi_section_parser33.cpp
@@ -82,7 +82,10 @@ void gridpack::parser::MultiSectParser33::parse(
     }
     nelems = split_line.size() - 3;
 
-    if (!found || nelems <= 0) continue;
+    if (!found || nelems <= 0) {
+      stream.nextLine(line);
+      continue;
+    }
 
     // Clean up 2 character tag
     gridpack::utility::StringUtils util;
@@ -106,7 +109,7 @@ void gridpack::parser::MultiSectParser33::parse(
 
     int i;
     char buf[32];
-    for (i=0; i<9; i++) {
+    for (i=0; i<9 && i<nelems-1; i++) {
       sprintf(buf,"MULTI_SEC_LINE_DUM%d",i+1);
       p_branchData[l_idx]->addValue(buf,atoi(split_line[i+4].c_str()));
     }
-- 
2.43.0


From 8ed5bbddab3a262272dba88fd18186facde1adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 61/67] fix: skip empty impedance correction tables

---
 src/parser/block_parsers/imped_corr_parser33.cpp | 5 ++++-
 src/parser/block_parsers/imped_corr_parser34.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/block_parsers/imped_corr_parser33.cpp b/src/parser/block_parsers/imped_corr_parser33.cpp
index 0baaec0..8971fbf 100644
--- a/src/parser/block_parsers/imped_corr_parser33.cpp
+++ b/src/parser/block_parsers/imped_corr_parser33.cpp
@@ -60,7 +60,10 @@ void gridpack::parser::ImpedCorrParser33::parse(
     int entries = nval-1;
     entries =  entries - entries%2;
     entries = entries/2;
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index d2861c2..a3eb413 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -79,7 +79,10 @@ void gridpack::parser::ImpedCorrParser34::parse(
     // Limit number of entries to version 33 format
     if (entries > 11) entries = 11;
 
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
-- 
2.43.0


From d7c1e90beb1b17b02815b60d991f2dba2e46b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 62/67] fix: read version 34 impedance correction tables as
 triples

---
 src/parser/block_parsers/imped_corr_parser34.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index a3eb413..42acf7a 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -74,8 +74,7 @@ void gridpack::parser::ImpedCorrParser34::parse(
 
     int nval = split_line.size();
     int entries = nval-1;
-    entries =  entries - entries%3;
-    entries = entries/2;
+    entries = entries/3;
     // Limit number of entries to version 33 format
     if (entries > 11) entries = 11;
 
@@ -101,14 +100,14 @@ void gridpack::parser::ImpedCorrParser34::parse(
        * #define XFMR_CORR_TABLE_Ti "XFMR_CORR_TABLE_Ti"
        */
       sprintf(buf,"XFMR_CORR_TABLE_T%d",i+1);
-      data->addValue(buf, atof(split_line[1+2*i].c_str()));
+      data->addValue(buf, atof(split_line[1+3*i].c_str()));
 
       /*
        * type: real float
        * #define XFMR_CORR_TABLE_Fi "XFMR_CORR_TABLE_Fi"
        */
       sprintf(buf,"XFMR_CORR_TABLE_F%d",i+1);
-      data->addValue(buf, atof(split_line[2+2*i].c_str()));
+      data->addValue(buf, atof(split_line[2+3*i].c_str()));
     }
 
     p_imp_corr_table.insert(std::pair<int,
-- 
2.43.0


From 9b924a21a24fde377146bb2f82709f3423ad5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 63/67] fix: store the regulated node of a switched shunt under
 its own name

---
 src/parser/block_parsers/switched_shunt_parser34.cpp | 2 +-
 src/parser/block_parsers/switched_shunt_parser35.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/block_parsers/switched_shunt_parser34.cpp b/src/parser/block_parsers/switched_shunt_parser34.cpp
index fea7793..755d445 100644
--- a/src/parser/block_parsers/switched_shunt_parser34.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser34.cpp
@@ -343,7 +343,7 @@ void gridpack::parser::SwitchedShuntParser34::parse(
     if (nval > 26) {
       if (!p_busData[o_idx]->setValue(SHUNT_NREG,
             atoi(split_line[26].c_str()))) {
-        p_busData[o_idx]->addValue(SHUNT_NREG, atof(split_line[26].c_str()));
+        p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[26].c_str()));
       }
     }
 
diff --git a/src/parser/block_parsers/switched_shunt_parser35.cpp b/src/parser/block_parsers/switched_shunt_parser35.cpp
index 286c0bc..c43856c 100644
--- a/src/parser/block_parsers/switched_shunt_parser35.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser35.cpp
@@ -138,7 +138,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      */
     if (!p_busData[o_idx]->setValue(SHUNT_NREG,
           atoi(split_line[8].c_str()))) {
-      p_busData[o_idx]->addValue(SHUNT_SWREG, atoi(split_line[8].c_str()));
+      p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[8].c_str()));
     }
 
     /*
-- 
2.43.0


From 7d7192b1f8ae92a47a3f8c5f71c06e8fed5fd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 64/67] fix: read version 34 switched shunts in their own
 format

---
 src/parser/PTI34_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index b74e3e4..d12e24e 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -47,7 +47,7 @@
 #include "gridpack/parser/block_parsers/interarea_parser33.hpp"
 #include "gridpack/parser/block_parsers/owner_parser33.hpp"
 #include "gridpack/parser/block_parsers/facts_parser33.hpp"
-#include "gridpack/parser/block_parsers/switched_shunt_parser35.hpp"
+#include "gridpack/parser/block_parsers/switched_shunt_parser34.hpp"
 
 #define TERM_CHAR '0'
 // SOURCE: http://www.ee.washington.edu/research/pstca/formats/pti.txt
@@ -291,7 +291,7 @@ class PTI34_parser : public BasePTIParser<_network>
         gridpack::parser::FACTSParser33 facts_parser(&p_busMap,
             &p_nameMap, &p_branchMap);
         facts_parser.parse(p_istream);
-        gridpack::parser::SwitchedShuntParser35 switched_shunt_parser(&p_busMap,
+        gridpack::parser::SwitchedShuntParser34 switched_shunt_parser(&p_busMap,
             &p_nameMap, &p_branchMap);
         switched_shunt_parser.parse(p_istream,p_busData);
 
-- 
2.43.0


From 96e14bc420ffd4a2d4e71ae12de6eb96db816b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 65/67] fix: store the base load flag of a generator as an
 integer

---
 src/parser/block_parsers/generator_parser35.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/generator_parser35.cpp b/src/parser/block_parsers/generator_parser35.cpp
index f0b94ed..83e0a9c 100644
--- a/src/parser/block_parsers/generator_parser35.cpp
+++ b/src/parser/block_parsers/generator_parser35.cpp
@@ -148,7 +148,7 @@ void gridpack::parser::GeneratorParser35::parse(
 
     // GENERATOR_BASLOD              "BASLOD"            integer 
     if (nstr > 19) p_busData[l_idx]->addValue(GENERATOR_BASLOD,
-        atof(split_line[19].c_str()), ngen);
+        atoi(split_line[19].c_str()), ngen);
 
     // TODO: add variables Oi, Fi, WMOD, WPF
     // There may be between 0 and 4 owner pairs.
-- 
2.43.0


From 837f2143e0dace9868294c2d777b672f6b927b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 66/67] fix: recognise a / in any quoted text of a raw or dyr
 record

---
 src/parser/base_pti_parser.hpp                | 32 +++++++------------
 .../block_parsers/base_block_parser.cpp       | 32 +++++++------------
 2 files changed, 22 insertions(+), 42 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index d3f5532..28f0bf0 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -2060,28 +2060,18 @@ class BasePTIParser : public BaseParser<_network>
      */
     void cleanComment(std::string &string)
     {
-      int idx = string.find_first_of('/',0);
-      if (idx != std::string::npos) {
-        // check to see if '/' character is between two quotes
-        bool squote = true;
-        int d1 = string.find_first_of('\'',0);
-        if (d1 == std::string::npos) {
-          d1 = string.find_first_of('\"',0);
-          if (d1 != std::string::npos) squote = false;
+      char quote = '\0';
+      for (size_t i=0; i<string.length(); i++) {
+        char c = string[i];
+        if (quote != '\0') {
+          if (c == quote) quote = '\0';
+        } else if (c == '\'' || c == '\"') {
+          // ignore quotes that are not closed
+          if (string.find(c,i+1) != std::string::npos) quote = c;
+        } else if (c == '/') {
+          string.erase(i);
+          return;
         }
-        int d2 = d1;
-        if (d1 != std::string::npos) {
-          if (squote) {
-            if (string.length() > d1+1) d2 = string.find_first_of('\'',d1+1);
-          } else {
-            if (string.length() > d1+1) d2 = string.find_first_of('\"',d1+1);
-          }
-        }
-        // if '/' is between two quotes, return
-        if (d1 != std::string::npos && d2 != std::string::npos
-            && d1 < idx && idx < d2) return;
-        int len = string.length()-idx;
-        string.erase(idx,len);
       }
     }
 
diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 7c159e6..82197f6 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -163,28 +163,18 @@ void gridpack::parser::BaseBlockParser::parseBusName(
  */
 void gridpack::parser::BaseBlockParser::cleanComment(std::string &string)
 {
-  int idx = string.find_first_of('/',0);
-  if (idx != std::string::npos) {
-    // check to see if '/' character is between two quotes
-    bool squote = true;
-    int d1 = string.find_first_of('\'',0);
-    if (d1 == std::string::npos) {
-      d1 = string.find_first_of('\"',0);
-      if (d1 != std::string::npos) squote = false;
+  char quote = '\0';
+  for (size_t i=0; i<string.length(); i++) {
+    char c = string[i];
+    if (quote != '\0') {
+      if (c == quote) quote = '\0';
+    } else if (c == '\'' || c == '\"') {
+      // ignore quotes that are not closed
+      if (string.find(c,i+1) != std::string::npos) quote = c;
+    } else if (c == '/') {
+      string.erase(i);
+      return;
     }
-    int d2 = d1;
-    if (d1 != std::string::npos) {
-      if (squote) {
-        if (string.length() > d1+1) d2 = string.find_first_of('\'',d1+1);
-      } else {
-        if (string.length() > d1+1) d2 = string.find_first_of('\"',d1+1);
-      }
-    }
-    // if '/' is between two quotes, return
-    if (d1 != std::string::npos && d2 != std::string::npos
-        && d1 < idx && idx < d2) return;
-    int len = string.length()-idx;
-    string.erase(idx,len);
   }
 }
 
-- 
2.43.0


From 5bd4ed4757cdd7fb3aaba6577e62d30c1c8b7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:58 +0000
Subject: [PATCH 67/67] fix: ignore remarks on all lines of a version 34
 correction table

---
 src/parser/block_parsers/imped_corr_parser34.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index 42acf7a..b0183ff 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -53,12 +53,12 @@ void gridpack::parser::ImpedCorrParser34::parse(
       stream.nextLine(line);
       continue;
     }
-    this->cleanComment(line);
     std::vector<std::string>  split_line;
     // accumulate lines for table into one line
     bool end_table = false;
     while (!end_table && test_end(line)) {
       std::vector<std::string>  tmp_list;
+      this->cleanComment(line);
       tmp_list = this->splitPSSELine(line);
       if (tmp_list.size() >= 3 && atof(tmp_list[0].c_str()) == 0.0 &&
           atof(tmp_list[1].c_str()) == 0.0 &&
-- 
2.43.0

