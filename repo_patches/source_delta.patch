From 41c59a1353221b2749c9280398645ff7955fd0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 001/205] fix: do not store past the end of the ip value tables
 when they are full

---
 src/fstd98/fstd98.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1d01ae1..c0a4ebf 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3442,6 +3442,10 @@ int c_ip1_all(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
+    if (ip_nb[0] >= Max_Ipvals) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip1 table full (ip_nb=%d)\n",__func__,ip_nb[0]);
+        return -1;
+    }
     ips_tab[0][ip_nb[0]] = ip_new;
     ip_nb[0]++;
     if (ip_nb[0] >= Max_Ipvals) {
@@ -3486,6 +3490,10 @@ int c_ip2_all(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
+    if (ip_nb[1] >= Max_Ipvals) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip2 table full (ip_nb=%d)\n",__func__,ip_nb[1]);
+        return -1;
+    }
     ips_tab[1][ip_nb[1]] = ip_new;
     ip_nb[1]++;
     if (ip_nb[1] >= Max_Ipvals) {
@@ -3529,6 +3537,10 @@ int c_ip3_all(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
+    if (ip_nb[2] >= Max_Ipvals) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip3 table full (ip_nb=%d)\n",__func__,ip_nb[2]);
+        return -1;
+    }
     ips_tab[2][ip_nb[2]] = ip_new;
     ip_nb[2]++;
     if (ip_nb[2] >= Max_Ipvals) {
@@ -3572,6 +3584,10 @@ int c_ip1_val(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
+    if (ip_nb[0] >= Max_Ipvals) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip1 table full (ip_nb=%d)\n",__func__,ip_nb[0]);
+        return -1;
+    }
     ips_tab[0][ip_nb[0]] = ip_new;
     ip_nb[0]++;
     if (ip_nb[0] >= Max_Ipvals) {
@@ -3600,6 +3616,10 @@ int c_ip2_val(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
+    if (ip_nb[1] >= Max_Ipvals) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip2 table full (ip_nb=%d)\n",__func__,ip_nb[1]);
+        return -1;
+    }
     ips_tab[1][ip_nb[1]] = ip_new;
     ip_nb[1]++;
     if (ip_nb[1] >= Max_Ipvals) {
@@ -3628,6 +3648,10 @@ int c_ip3_val(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
+    if (ip_nb[2] >= Max_Ipvals) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip3 table full (ip_nb=%d)\n",__func__,ip_nb[2]);
+        return -1;
+    }
     ips_tab[2][ip_nb[2]] = ip_new;
     ip_nb[2]++;
     if (ip_nb[2] >= Max_Ipvals) {
-- 
2.43.0


From 46a63a41db4793dc8b3b8becaa20447e4afe5418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:28 +0000
Subject: [PATCH 002/205] fix: code a negative value that rounds to zero as
 zero, not as +1000000E-11

---
 src/fstd98/convip.f        | 1 +
 src/fstd98/convip_plus.f90 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fstd98/convip.f b/src/fstd98/convip.f
index 352a936..fc08cee 100644
--- a/src/fstd98/convip.f
+++ b/src/fstd98/convip.f
@@ -197,6 +197,7 @@ c     %         goto 101
          if ( temp .gt. limit1 ) then
             ip = -1
          else
+            if (temp .lt. .5) offset = 0
             ip = offset + temp + .5
          endif
          ip = ior (ip,ishft(iexp,20))
diff --git a/src/fstd98/convip_plus.f90 b/src/fstd98/convip_plus.f90
index b1d25db..3f3a8a3 100644
--- a/src/fstd98/convip_plus.f90
+++ b/src/fstd98/convip_plus.f90
@@ -191,6 +191,7 @@ SUBROUTINE CONVIP_plus( ip, p, kind, mode, string, flagv )
           if ( temp .gt. limit1 ) then          ! number is too big, cannot code
               ip = -1
           else
+              if (nint(temp) .eq. 0) offset = 0 ! a null mantissa has no sign (1000000 is a positive mantissa)
               ip = offset + nint(temp)
           endif
           ip = ior (ip,ishft(iexp,20))          ! add pseudo exponent
-- 
2.43.0


From f1ca51ca1c79aa158590b036a78bea086a77e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 003/205] fix: decode ip triplets whose level kind is 7 or 21,
 or whose ip2/ip3 is old style (unset kind used)

---
 src/fstd98/convert_ip123.f90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/convert_ip123.f90 b/src/fstd98/convert_ip123.f90
index 05a8208..4a7a160 100644
--- a/src/fstd98/convert_ip123.f90
+++ b/src/fstd98/convert_ip123.f90
@@ -381,6 +381,7 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
   if(IP2 < 32768) then                          ! IP2 is old style, probably a time value
     RP2%lo = IP2 ; RP2%hi = IP2 ; 
     RP2%kind = 10                               ! time in hours ?
+    kind(2) = RP2%kind
     status = ior(status , CONVERT_GOOD_GUESS)    ! reasonable guess
   else
     call convip_plus(IP2,P(2),kind(2),-1,dummy,.false.)  ! kind of ip2 should be new style time
@@ -391,6 +392,7 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
   if(IP3 < 32768) then                          ! IP3 is old style,
     RP3%lo = IP3 ; RP3%hi = IP3
     RP3%kind = 3
+    kind(3) = -1                                 ! too unreliable to be one end of a range
     status = ior(status,CONVERT_TERRIBLE_GUESS)  ! highly unreliable guess
   else
     call convip_plus(IP3,P(3),kind(3),-1,dummy,.false.)  ! kind of ip3 may be anything new style
@@ -402,14 +404,14 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
     RP2%hi=P(3)
     RP3%lo=0.0 ; RP3%hi=0.0 ; RP3%kind=-1
     if(RP2%hi < RP2%lo) call swap(RP2%lo,RP2%hi)
-  elseif(kind(3)<=6 .and. kind(1)==kind(3)) then ! same level type as ip1
+  elseif(is_level(kind(3)) .and. kind(1)==kind(3)) then ! same level type as ip1
     RP1%hi=P(3)
     RP3%lo=0.0 ; RP3%hi=0.0 ; RP3%kind=-1
     if(RP1%hi < RP1%lo .and. ascending(kind(3))) call swap(RP1%lo,RP1%hi)
     if(RP1%hi > RP1%lo .and. descending(kind(3))) call swap(RP1%lo,RP1%hi)
   endif
 
-  if(kind(1) >6 .or. kind(2)/=10) then  ! ip1 must be a level, ip2 must be a time
+  if(.not. is_level(kind(1)) .or. kind(2)/=10) then  ! ip1 must be a level, ip2 must be a time
     status=ior(status,CONVERT_ERROR)       ! add bad coding flag
   endif
 
-- 
2.43.0


From b64c286c2c29beeca30e860b1492c0e714dd575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:52 +0000
Subject: [PATCH 004/205] fix: convip returns after flagging a code of
 undefined kind instead of indexing its tables with -1

---
 src/fstd98/convip.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/convip.f b/src/fstd98/convip.f
index fc08cee..79a524c 100644
--- a/src/fstd98/convip.f
+++ b/src/fstd98/convip.f
@@ -302,6 +302,7 @@ c     %         goto 101
                p = -999999.0
                kind = -1
                if(flag) string = 'Invalid'
+               return
             endif
             iexp = iand (15,ishft(ip,-20))
             itemp = iand (1048575, ip)
-- 
2.43.0


From 65440b92c17dbc80399f7fe9db522156180c152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:10 +0000
Subject: [PATCH 005/205] fix: a label with only its last two characters set is
 a search key, not a wildcard

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index c0a4ebf..78898d8 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1788,7 +1788,7 @@ int c_fstinfx(
     stdf_entry->etikbc = (ascii6(etiket[10]) <<  6) |
                         (ascii6(etiket[11]));
 
-    if ((stdf_entry->etik15 == 0) && (stdf_entry->etik6a == 0)) {
+    if ((stdf_entry->etik15 == 0) && (stdf_entry->etik6a == 0) && (stdf_entry->etikbc == 0)) {
         search_mask->etik15 = 0;
         search_mask->etik6a = 0;
         search_mask->etikbc = 0;
-- 
2.43.0


From b2519b6c2d75d62fbb58493b7507c8d907280c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 006/205] fix: continue a search from a handle that lies in a
 linked file

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5cbe474..c8df9f1 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1661,7 +1661,7 @@ int c_xdfloc2(
     }
 
     if ((handle != -1) && (! f->xdf_seq)) {
-        if (pageno != f->cur_pageno) {
+        if ((pageno != f->cur_pageno) || (pageno >= f->npages)) {
             if (pageno < f->npages) {
                 // Page is in current file
                 f->cur_dir_page = f->dir_page[pageno];
@@ -1675,7 +1675,7 @@ int c_xdfloc2(
                 }
                 f->cur_dir_page = f->dir_page[f->npages - 1];
                 f->cur_pageno = f->npages - 1;
-                for (i = 0; (i <= pageno - f->cur_pageno) && (f->cur_dir_page); i++) {
+                while ((f->cur_pageno < pageno) && (f->cur_dir_page)) {
                     f->cur_dir_page = (f->cur_dir_page)->next_page;
                     f->cur_pageno++;
                 }
-- 
2.43.0


From 15af6ab06a5e0f95c882e1ad3cc83aa904bb4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:09 +0000
Subject: [PATCH 007/205] fix: search by several level tables checks ip2 and
 ip3 even when ip1 already matches or is not searched by level

---
 src/fstd98/fstd98.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 78898d8..c2f83aa 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1829,19 +1829,9 @@ int c_fstinfx(
         int nomatch = 1;
         while ((lhandle >=  0) && (nomatch)) {
             nomatch = 0;
-            if ((ip1s_flag) && (ip1 >= 0)) {
-                if (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0) {
-                    nomatch = 1;
-                } else if ((ip2s_flag) && (ip2 >= 0)) {
-                    if (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0) {
-                        nomatch = 1;
-                    } else if ((ip3s_flag) && (ip3 >= 0)) {
-                        if (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0) {
-                            nomatch = 1;
-                        }
-                    }
-                }
-            }
+            if ((ip1s_flag) && (ip1 >= 0) && (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0)) nomatch = 1;
+            if ((ip2s_flag) && (ip2 >= 0) && (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0)) nomatch = 1;
+            if ((ip3s_flag) && (ip3 >= 0) && (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0)) nomatch = 1;
             if (nomatch) {
                 lhandle = c_xdfloc2(iun, -1, pkeys, 16, pmask);
                 if (lhandle >= 0) c_xdfprm(lhandle, &addr, &lng, &idtyp, pkeys, 16);
-- 
2.43.0


From fd9a304988778a7e0628c4c4e947165856e026ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:50 +0000
Subject: [PATCH 008/205] fix: refuse handles that designate the entry after
 the last record, or (directory edit) no open file or page

---
 src/fstd98/fstd98.c | 10 +++++++++-
 src/fstd98/xdf98.c  |  8 ++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index c2f83aa..79853e7 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1428,6 +1428,10 @@ int c_fst_edit_dir_plus(
     }
 
     f = file_table[index];
+    if (f == NULL) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
+        return(ERR_BAD_HNDL);
+    }
 
     if (! f->cur_info->attr.std) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not a RPN standard file\n",__func__,f->iun);
@@ -1450,13 +1454,17 @@ int c_fst_edit_dir_plus(
     strncpy(grtyp, in_grtyp, l4);
 
     pageno = PAGENO_FROM_HANDLE(handle);
-    if (pageno > f->npages) {
+    if (pageno >= f->npages) {
         /* page is not in current file */
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
         return(ERR_BAD_PAGENO);
     }
 
     recno = RECORD_FROM_HANDLE(handle);
+    if (recno >= (f->dir_page[pageno])->dir.nent) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
+        return(ERR_BAD_HNDL);
+    }
     /*  printf("Debug+ c_fst_edit_dir pageno=%d recno=%d\n", pageno, recno); */
     width = W64TOWD(f->primary_len);
     entry = (f->dir_page[pageno])->dir.entry + recno * width;
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index c8df9f1..fcc54a7 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -997,7 +997,7 @@ int c_xdfdel(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -1092,7 +1092,7 @@ int c_xdfget2(
             f = file_table[target_page->true_file_index];
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2108,7 +2108,7 @@ int c_xdfprm(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2238,7 +2238,7 @@ int c_xdfput(
                 }
             }
 
-            if (record_number > f->cur_dir_page->dir.nent) {
+            if (record_number >= f->cur_dir_page->dir.nent) {
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
                 return(ERR_BAD_HNDL);
             }
-- 
2.43.0


From 9fbe86813aed23af1574210938ebeec104b2c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:06 +0000
Subject: [PATCH 009/205] fix: editing the directory of a file opened for
 reading only is refused

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 79853e7..dd714b8 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1443,6 +1443,11 @@ int c_fst_edit_dir_plus(
         return(ERR_NO_FILE);
     }
 
+    if (f->cur_info->attr.read_only) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,f->iun);
+        return(ERR_NO_WRITE);
+    }
+
     l1 = Min(strlen(typvar), strlen(in_typvar));
     l2 = Min(strlen(nomvar), strlen(in_nomvar));
     l3 = Min(strlen(etiket), strlen(in_etiket));
-- 
2.43.0


From 30e5020e0a41c2ef4f9fa575e5603d3f6f50cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:08 +0000
Subject: [PATCH 010/205] fix: extrapolate upward also when there are only two
 source levels and downward extrapolation is enabled

---
 src/interpv/Extrap1D_Abort_Body.inc     | 6 ++++--
 src/interpv/Extrap1D_Fixed_Body.inc     | 6 ++++--
 src/interpv/Extrap1D_LapseRate_Body.inc | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/interpv/Extrap1D_Abort_Body.inc b/src/interpv/Extrap1D_Abort_Body.inc
index 9486107..61aa9b0 100644
--- a/src/interpv/Extrap1D_Abort_Body.inc
+++ b/src/interpv/Extrap1D_Abort_Body.inc
@@ -78,8 +78,10 @@
           call lib_log(APP_LIBINTERPV,APP_ERROR,app_msg)
           call exit(2)
         endif
+      end if ! extrapEnableDown
 
-      else if(      extrapEnableUp &
+      ! with two source levels, the lowest position is also the highest one
+      if(      extrapEnableUp &
               .and. posnDestInSrc(i,vt) == highestPossiblePosn) then
         if( vLevelDestn(i,vt) > vLevelSource(i,indexHighestLevel) ) then
           ! extrapolation is required:  abort execution
@@ -87,7 +89,7 @@
           call lib_log(APP_LIBINTERPV,APP_ERROR,app_msg)
           call exit(2)
         end if
-      end if ! extrapEnableDown
+      end if ! extrapEnableUp
     end do ! i
   end do ! vt
 !$OMP END parallel do
diff --git a/src/interpv/Extrap1D_Fixed_Body.inc b/src/interpv/Extrap1D_Fixed_Body.inc
index baab8b1..407cda5 100644
--- a/src/interpv/Extrap1D_Fixed_Body.inc
+++ b/src/interpv/Extrap1D_Fixed_Body.inc
@@ -87,14 +87,16 @@
           ! extrapolate below the lowest source vertical level
           stateDestn(i,vt) =   extrapGuideDown
         endif
+      end if ! extrapEnableDown
 
-      else if(      extrapEnableUp &
+      ! with two source levels, the lowest position is also the highest one
+      if(      extrapEnableUp &
               .and. posnDestInSrc(i,vt) == highestPossiblePosn) then
         if( vLevelDestn(i,vt) > vLevelSource(i,indexHighestLevel) ) then
           ! extrapolate above the highest source vertical lavel
           stateDestn(i,vt) = extrapGuideUp
         end if
-      end if ! extrapEnableDown
+      end if ! extrapEnableUp
     end do ! i
   end do ! vt
 !$OMP END parallel do
diff --git a/src/interpv/Extrap1D_LapseRate_Body.inc b/src/interpv/Extrap1D_LapseRate_Body.inc
index 5a391a5..ddfd0f7 100644
--- a/src/interpv/Extrap1D_LapseRate_Body.inc
+++ b/src/interpv/Extrap1D_LapseRate_Body.inc
@@ -102,8 +102,10 @@
                                               - vLevelSource(i,indexLowestLevel)&
                                              )
         endif
+      end if ! extrapEnableDown
 
-      else if(      extrapEnableUp &
+      ! with two source levels, the lowest position is also the highest one
+      if(      extrapEnableUp &
               .and. posnDestInSrc(i,vt) == highestPossiblePosn) then
         if( vLevelDestn(i,vt) > vLevelSource(i,indexHighestLevel) ) then
           ! extrapolate above the highest source vertical lavel
@@ -112,7 +114,7 @@
                                              - vLevelSource(i,indexHighestLevel)&
                                             )
         end if
-      end if ! extrapEnableDown
+      end if ! extrapEnableUp
     end do ! i
   end do ! vt
 !$OMP END parallel do
-- 
2.43.0


From a2cdbbf753dceb1c94099e91b3c9366fb391d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:02 +0000
Subject: [PATCH 011/205] fix: positions on hemispheric Gaussian grids use the
 whole latitude axis

---
 src/interp/ez_calcxy.c |  5 +++--
 src/interp/gdllfxy.c   | 12 ++++++------
 src/interp/gdxyfll.c   | 10 +++++-----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/interp/ez_calcxy.c b/src/interp/ez_calcxy.c
index fd7fb2f..4eb812b 100644
--- a/src/interp/ez_calcxy.c
+++ b/src/interp/ez_calcxy.c
@@ -27,7 +27,7 @@
 
 int32_t ez_calcxy(int32_t gdin, int32_t gdout)
 {
-    int32_t coordonnee, ni_in, nj_in, ni_out, nj_out, ninj_in, ninj_out;
+    int32_t coordonnee, ni_in, nj_in, nj_ay, ni_out, nj_out, ninj_in, ninj_out;
     int32_t gdrow_in, gdrow_out, gdcol_in, gdcol_out, previous_val_polar_correction;
     int idx_gdin;
 
@@ -78,11 +78,12 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
         case '#':
         case 'Z':
         case 'G':
+            nj_ay = Grille[gdrow_in][gdcol_in].j2 - Grille[gdrow_in][gdcol_in].j1 + 1;
             coordonnee = RELATIF;
             f77name(ez_ll2igd)(Grille[gdrow_out][gdcol_out].gset[idx_gdin].x,
                                 Grille[gdrow_out][gdcol_out].gset[idx_gdin].y,
                                 Grille[gdrow_out][gdcol_out].lat, Grille[gdrow_out][gdcol_out].lon, &ninj_out,
-                                &ni_in,&nj_in,Grille[gdrow_in][gdcol_in].grtyp, Grille[gdrow_in][gdcol_in].grref,
+                                &ni_in,&nj_ay,Grille[gdrow_in][gdcol_in].grtyp, Grille[gdrow_in][gdcol_in].grref,
                                 &Grille[gdrow_in][gdcol_in].fst.igref[IG1], &Grille[gdrow_in][gdcol_in].fst.igref[IG2],
                                 &Grille[gdrow_in][gdcol_in].fst.igref[IG3], &Grille[gdrow_in][gdcol_in].fst.igref[IG4],
                                 Grille[gdrow_in][gdcol_in].ax, Grille[gdrow_in][gdcol_in].ay,
diff --git a/src/interp/gdllfxy.c b/src/interp/gdllfxy.c
index 04c5355..c8f0ce8 100644
--- a/src/interp/gdllfxy.c
+++ b/src/interp/gdllfxy.c
@@ -197,14 +197,14 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
          indy = (int)ytmp[i]-1;
 
          indx = indx < 0 ? 0 : indx;
-         indy = indy < 0 ? 0 : indy;
+         indy = indy < gr.j1-1 ? gr.j1-1 : indy;
          indx = indx > gr.ni-2 ? gr.ni-2 : indx;
          indy = indy > gr.j2-2 ? gr.j2-2 : indy;
          delxx = gr.ax[indx+1]-gr.ax[indx];
          tmpx[i] = gr.ax[indx] + ((x[i]-1.0-indx)*delxx);
 
-         delyy = gr.ay[indy+1]-gr.ay[indy];
-         tmpy[i] = gr.ay[indy] + ((ytmp[i]-1.0-indy)*delyy);
+         delyy = gr.ay[indy+2-gr.j1]-gr.ay[indy+1-gr.j1];
+         tmpy[i] = gr.ay[indy+1-gr.j1] + ((ytmp[i]-1.0-indy)*delyy);
          }
 
       switch (gr.grref[0])
@@ -351,14 +351,14 @@ int32_t c_gdllfxy_orig(int32_t gdid, float *lat, float *lon, float *x, float *y,
          indy = (int)y[i]-1;
 
          indx = indx < 0 ? 0 : indx;
-         indy = indy < 0 ? 0 : indy;
+         indy = indy < gr.j1-1 ? gr.j1-1 : indy;
          indx = indx > gr.ni-2 ? gr.ni-2 : indx;
          indy = indy > gr.j2-2 ? gr.j2-2 : indy;
          delxx = gr.ax[indx+1]-gr.ax[indx];
          tmpx[i] = gr.ax[indx] + ((x[i]-1.0-indx)*delxx);
 
-         delyy = gr.ay[indy+1]-gr.ay[indy];
-         tmpy[i] = gr.ay[indy] + ((y[i]-1.0-indy)*delyy);
+         delyy = gr.ay[indy+2-gr.j1]-gr.ay[indy+1-gr.j1];
+         tmpy[i] = gr.ay[indy+1-gr.j1] + ((y[i]-1.0-indy)*delyy);
          }
 
       switch (gr.grref[0])
diff --git a/src/interp/gdxyfll.c b/src/interp/gdxyfll.c
index d37592a..b93008b 100644
--- a/src/interp/gdxyfll.c
+++ b/src/interp/gdxyfll.c
@@ -72,7 +72,7 @@ int32_t c_gdxyfll_new(int32_t gdid, float *x, float *y, float *lat, float *lon,
         case 'Z':
         case 'G':
             coordonnee = RELATIF;
-            nj_in =  gr.j2;
+            nj_in =  gr.j2 - gr.j1 + 1;
             f77name(ez_ll2igd)(x, y, lat, lon, &npts,
                 &ni_in,&nj_in,gr.grtyp, gr.grref,
                 &gr.fst.igref[IG1], &gr.fst.igref[IG2],
@@ -82,14 +82,14 @@ int32_t c_gdxyfll_new(int32_t gdid, float *x, float *y, float *lat, float *lon,
                 {
                 for  (j=0; j < npts; j++)
                         {
-                    y[j] = y[j] - nj_in;
+                    y[j] = y[j] - gr.nj;
                     }
                 }
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG2] == 1)
         {
                 for  (j=0; j < npts; j++)
                         {
-                    y[j] = nj_in +1.0 - y[j];
+                    y[j] = gr.nj +1.0 - y[j];
                     }
                 }
         break;
@@ -140,7 +140,7 @@ int32_t c_gdxyfll_orig(int32_t gdid, float *x, float *y, float *lat, float *lon,
         case '#':
         case 'Z':
         case 'G':
-            nj_in =  gr.j2;
+            nj_in =  gr.j2 - gr.j1 + 1;
             f77name(ez_ll2igd)(x, y, lat, lon, &npts,
                 &ni_in,&nj_in,gr.grtyp, gr.grref,
                 &gr.fst.igref[IG1], &gr.fst.igref[IG2],
@@ -148,7 +148,7 @@ int32_t c_gdxyfll_orig(int32_t gdid, float *x, float *y, float *lat, float *lon,
                 gr.ax, gr.ay, &coordonnee, 1, 1);
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == 1) {
                 for (int32_t j = 0; j < npts; j++) {
-                    y[j] = y[j] - nj_in;
+                    y[j] = y[j] - gr.nj;
                 }
             }
             break;
-- 
2.43.0


From 238e9c717ed5c90f180653aa568ce68195a96751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:16 +0000
Subject: [PATCH 012/205] fix: ez_ll2igd leaves the caller's longitudes
 unchanged

---
 src/interp/ez_ll2igd.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interp/ez_ll2igd.inc b/src/interp/ez_ll2igd.inc
index dfc7b04..df63389 100644
--- a/src/interp/ez_ll2igd.inc
+++ b/src/interp/ez_ll2igd.inc
@@ -38,6 +38,7 @@ subroutine ez_ll2igd(px, py, xlat, xlon, npts, ni, nj, grtyp, grref, ig1, ig2, i
     real :: dlat, dlon, xlat0, xlon0
     real :: xlat1, xlon1, xlat2, xlon2
     real :: lonref
+    real, allocatable :: lons(:)
     integer :: indx, indy
 
     integer, external :: ez_cherche
@@ -59,7 +60,11 @@ subroutine ez_ll2igd(px, py, xlat, xlon, npts, ni, nj, grtyp, grref, ig1, ig2, i
         else
             lonref = 0.0
         endif
-        call ez_llll2gd(px, py, xlat, xlon, npts, xlat0, xlon0, dlat, dlon, lonref)
+        ! ez_llll2gd changes the longitudes it is given
+        allocate(lons(npts))
+        lons = xlon
+        call ez_llll2gd(px, py, xlat, lons, npts, xlat0, xlon0, dlat, dlon, lonref)
+        deallocate(lons)
         do i = 1, npts
             px(i) = px(i) - 1.0
             py(i) = py(i) - 1.0
-- 
2.43.0


From 4b857ed9403570f2288068f5e9441a3f360f4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:57 +0000
Subject: [PATCH 013/205] fix: gdlluvfuv returns wind components, not speed and
 direction, on grids that are not rotated

---
 src/interp/gdlluvfuv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/gdlluvfuv.c b/src/interp/gdlluvfuv.c
index 2565ce7..c2df1cb 100644
--- a/src/interp/gdlluvfuv.c
+++ b/src/interp/gdlluvfuv.c
@@ -34,6 +34,7 @@ int32_t c_gdlluvfuv_orig(int32_t gdid, float *uullout, float *vvllout, float *uu
 
    int32_t ni = npts;
    int32_t nj = 1;
+   int32_t zero = 0;
 
     memcpy(uullout, uuin, npts*sizeof(float));
     memcpy(vvllout, vvin, npts*sizeof(float));
@@ -83,6 +84,8 @@ int32_t c_gdlluvfuv_orig(int32_t gdid, float *uullout, float *vvllout, float *uu
                                 Grille[gdrow_id][gdcol_id].grref,
                                 &Grille[gdrow_id][gdcol_id].fst.igref[IG1],&Grille[gdrow_id][gdcol_id].fst.igref[IG2],
                                 &Grille[gdrow_id][gdcol_id].fst.igref[IG3],&Grille[gdrow_id][gdcol_id].fst.igref[IG4], 1);
+                    /* speed and direction -> eastward and northward components */
+                    f77name(ez_gdwfllw)(uullout,vvllout,lonin,&ni,&nj,"L",&zero,&zero,&zero,&zero, 1);
                     break;
             }
             break;
@@ -93,6 +96,7 @@ int32_t c_gdlluvfuv_orig(int32_t gdid, float *uullout, float *vvllout, float *uu
                         Grille[gdrow_id][gdcol_id].grtyp,
                         &Grille[gdrow_id][gdcol_id].fst.ig[IG1],&Grille[gdrow_id][gdcol_id].fst.ig[IG2],
                         &Grille[gdrow_id][gdcol_id].fst.ig[IG3],&Grille[gdrow_id][gdcol_id].fst.ig[IG4], 1);
+                f77name(ez_gdwfllw)(uullout,vvllout,lonin,&ni,&nj,"L",&zero,&zero,&zero,&zero, 1);
                 break;
     }
 
-- 
2.43.0


From 3bf84c2adee0b18868820cfe26ccb5570c60424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:05 +0000
Subject: [PATCH 014/205] fix: gduvfwd on E grids rotates the wind at the given
 points instead of overwriting their coordinates

---
 src/interp/gduvfwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/gduvfwd.c b/src/interp/gduvfwd.c
index 828edf6..7eb710f 100644
--- a/src/interp/gduvfwd.c
+++ b/src/interp/gduvfwd.c
@@ -44,7 +44,7 @@ int32_t c_gduvfwd_orig(int32_t gdid,  float *uugdout, float *vvgdout, float *uul
         case 'E':
             lat_true = (float *)(malloc(npts * sizeof(float)));
             lon_true = (float *)(malloc(npts * sizeof(float)));
-            f77name(ez_gfxyfll)(lon_true, lat_true, lonin, latin, &ni,
+            f77name(ez_gfxyfll)(lonin, latin, lon_true, lat_true, &ni,
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT1], &Grille[gdrow_id][gdcol_id].fst.xg[XLON1],
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT2], &Grille[gdrow_id][gdcol_id].fst.xg[XLON2]);
 
-- 
2.43.0


From cdf78aaddfc74c0bce13a13df9c2d3b3bf54173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:11 +0000
Subject: [PATCH 015/205] fix: the nearest point of a position past the last
 column of a wrapping grid is in the first column

---
 src/PUBLIC_INCLUDES/rmn/f_ezscint.h |  2 ++
 src/interp/ez_corrval_aunord.c      |  2 +-
 src/interp/ez_corrval_ausud.c       |  2 +-
 src/interp/ez_corrvec_aunord.c      |  4 ++--
 src/interp/ez_corrvec_ausud.c       |  4 ++--
 src/interp/ez_rgdint_0.inc          | 21 +++++++++++++++++++++
 src/interp/gdinterp.c               | 10 ++++++----
 7 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/PUBLIC_INCLUDES/rmn/f_ezscint.h b/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
index 6286c86..06e179d 100644
--- a/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
+++ b/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
@@ -57,6 +57,8 @@ void f77name(ez_nwtncof)(float *cx, float *cy, float *ax, float *ay, int32_t *ni
                          int32_t *i1, int32_t *i2, int32_t *j1, int32_t *j2, int32_t *extension);
 void f77name(ez_rgdint_0)(float *zo, float *px, float *py, int32_t *npts, float *z,
                           int32_t *ni, int32_t *j1, int32_t *j2);
+void f77name(ez_rgdint_0_w)(float *zo, float *px, float *py, int32_t *npts, float *z,
+                            int32_t *ni, int32_t *j1, int32_t *j2, int32_t *wrap);
 void f77name(ez_rgdint_1_nw)(float *zo, float *px, float *py, int32_t *npts, float *z,
                              int32_t *ni, int32_t *j1, int32_t *j2);
 void f77name(ez_rgdint_1_w)(float *zo, float *px, float *py, int32_t *npts, float *z,
diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index 2e06b29..dcf4bc6 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -100,7 +100,7 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
                 for (int32_t i = 0; i < npts; i++) {
                     temp_y[i] = gset->zones[AU_NORD].y[i] - (1.0 * (lgd->j2-3));
                 }
-                f77name(ez_rgdint_0)(vals,gset->zones[AU_NORD].x,temp_y,&npts,temp,&ni, (int32_t *)&un, (int32_t *)&quatre);
+                f77name(ez_rgdint_0_w)(vals,gset->zones[AU_NORD].x,temp_y,&npts,temp,&ni, (int32_t *)&un, (int32_t *)&quatre, &(lgd->extension));
                 free(temp_y);
                 break;
             }
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 3f7304c..78a0022 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -120,7 +120,7 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	     {
 	     temp_y[i] = gset->zones[AU_SUD].y[i] - (1.0*j1);
 	     }*/
-	   f77name(ez_rgdint_0)(vals,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,temp,&ni, &j1, &j2);
+	   f77name(ez_rgdint_0_w)(vals,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,temp,&ni, &j1, &j2, &lgdin->extension);
 	   free(temp_y);
 	   break;
       }
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index 5ba8dd6..fc33c0c 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -117,8 +117,8 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
             {
             temp_y[i] = gset->zones[AU_NORD].y[i] - (1.0 * (laGrille.j2-3));
             }
-        f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_NORD].x,temp_y,&npts,polar_uu_in,&ni, &un, &quatre);
-        f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_NORD].x,temp_y,&npts,polar_vv_in,&ni, &un, &quatre);
+        f77name(ez_rgdint_0_w)(corr_uus,gset->zones[AU_NORD].x,temp_y,&npts,polar_uu_in,&ni, &un, &quatre, &laGrille.extension);
+        f77name(ez_rgdint_0_w)(corr_vvs,gset->zones[AU_NORD].x,temp_y,&npts,polar_vv_in,&ni, &un, &quatre, &laGrille.extension);
         free(temp_y);
         break;
     }
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index 71d9841..f9f3ad4 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -106,8 +106,8 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
             break;
 
         case VOISIN:
-            f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_uu_in,&ni, &j1, &j2);
-            f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_vv_in,&ni, &j1, &j2);
+            f77name(ez_rgdint_0_w)(corr_uus,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_uu_in,&ni, &j1, &j2, &laGrille.extension);
+            f77name(ez_rgdint_0_w)(corr_vvs,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_vv_in,&ni, &j1, &j2, &laGrille.extension);
             break;
     }
 
diff --git a/src/interp/ez_rgdint_0.inc b/src/interp/ez_rgdint_0.inc
index 554b17a..6a64dfb 100644
--- a/src/interp/ez_rgdint_0.inc
+++ b/src/interp/ez_rgdint_0.inc
@@ -34,3 +34,24 @@
       return
       end
 
+!> Nearest point interpolation on a grid whose columns wrap around.
+!> With wrap = 2, the column that follows the last one is the first one.
+      subroutine ez_rgdint_0_w(zo,px,py,npts,z,ni,j1,j2,wrap)
+      implicit none
+
+      integer npts, ni, j1, j2, wrap, i, j, n
+      real zo(npts),px(npts),py(npts)
+      real z(ni,j1:j2)
+
+      do n=1,npts
+         i = nint(px(n))
+         if (wrap.eq.2.and.i.eq.ni+1) i = 1
+         i = min(ni,max(1,i))
+         j = min(j2,max(j1,nint(py(n))))
+
+         zo(n)=z(i,j)
+      enddo
+
+      return
+      end
+
diff --git a/src/interp/gdinterp.c b/src/interp/gdinterp.c
index 30dde82..ea6e23e 100644
--- a/src/interp/gdinterp.c
+++ b/src/interp/gdinterp.c
@@ -136,8 +136,9 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
         case 'G':
             switch (groptions.degre_interp) {
                 case VOISIN:
-                    f77name(ez_rgdint_0)(zout, x, y, &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
-                        &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2);
+                    f77name(ez_rgdint_0_w)(zout, x, y, &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
+                        &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2,
+                        &Grille[gdrow_in][gdcol_in].extension);
                 break;
 
                 case LINEAIRE:
@@ -238,9 +239,10 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
       switch (groptions.degre_interp)
          {
          case VOISIN:
-         f77name(ez_rgdint_0)(zout,x,y,
+         f77name(ez_rgdint_0_w)(zout,x,y,
             &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
-            &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2);
+            &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2,
+            &Grille[gdrow_in][gdcol_in].extension);
          break;
 
          case LINEAIRE:
-- 
2.43.0


From cb82fd27d11a28cbc40f3b518fc5f59a9552169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:29 +0000
Subject: [PATCH 016/205] fix: interpolate in the row below the point on the
 mirrored hemisphere too (negative rows were rounded toward zero)

---
 src/interp/ez_irgdint_1_w.inc    | 6 +-----
 src/interp/ez_irgdint_3_nw.inc   | 2 +-
 src/interp/ez_irgdint_3_w.inc    | 2 +-
 src/interp/ez_irgdint_3_wnnc.inc | 2 +-
 src/interp/ez_rgdint_1_nw.inc    | 2 +-
 src/interp/ez_rgdint_1_w.inc     | 2 +-
 src/interp/ez_rgdint_3_nw.inc    | 2 +-
 src/interp/ez_rgdint_3_w.inc     | 2 +-
 src/interp/ez_rgdint_3_wnnc.inc  | 2 +-
 9 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/interp/ez_irgdint_1_w.inc b/src/interp/ez_irgdint_1_w.inc
index dd279e9..f4bc302 100644
--- a/src/interp/ez_irgdint_1_w.inc
+++ b/src/interp/ez_irgdint_1_w.inc
@@ -31,11 +31,7 @@
       do n=1,npts
          limite = ni+2-wrap
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1+1, ifix(py(n))))
-
-         if (j.lt.0) then
-            j = j-1
-         endif
+         j = min(j2-1,max(j1+1, floor(py(n))))
 
          iplus1 = i+1
 
diff --git a/src/interp/ez_irgdint_3_nw.inc b/src/interp/ez_irgdint_3_nw.inc
index a27a97e..170695f 100644
--- a/src/interp/ez_irgdint_3_nw.inc
+++ b/src/interp/ez_irgdint_3_nw.inc
@@ -88,7 +88,7 @@
       
       do n=1,npts
          i = min(i2-2,max(i1+1,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          x = ax(i) + (ax(i+1)-ax(i))*(px(n)-i)
          y = ay(j) + (ay(j+1)-ay(j))*(py(n)-j)
diff --git a/src/interp/ez_irgdint_3_w.inc b/src/interp/ez_irgdint_3_w.inc
index c7eb1d4..b5fa6e2 100644
--- a/src/interp/ez_irgdint_3_w.inc
+++ b/src/interp/ez_irgdint_3_w.inc
@@ -92,7 +92,7 @@
 !zzzzzz$OMP DO PRIVATE(n)
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          imoins1 = i-1
          iplus1 = i+1
diff --git a/src/interp/ez_irgdint_3_wnnc.inc b/src/interp/ez_irgdint_3_wnnc.inc
index 8c9d4f9..475f11b 100644
--- a/src/interp/ez_irgdint_3_wnnc.inc
+++ b/src/interp/ez_irgdint_3_wnnc.inc
@@ -92,7 +92,7 @@
       limite = ni+2-wrap
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          imoins1 = i-1
          iplus1 = i+1
diff --git a/src/interp/ez_rgdint_1_nw.inc b/src/interp/ez_rgdint_1_nw.inc
index 8781271..4185faf 100644
--- a/src/interp/ez_rgdint_1_nw.inc
+++ b/src/interp/ez_rgdint_1_nw.inc
@@ -29,7 +29,7 @@
 
       do n=1,npts
          i = min(ni-1,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1,ifix(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
          
          dx = px(n) - i
          dy = py(n) - j
diff --git a/src/interp/ez_rgdint_1_w.inc b/src/interp/ez_rgdint_1_w.inc
index 6006d90..320bbdf 100644
--- a/src/interp/ez_rgdint_1_w.inc
+++ b/src/interp/ez_rgdint_1_w.inc
@@ -31,7 +31,7 @@
       limite = ni +2 - wrap
       do n=1,npts
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1,ifix(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
          
          iplus1 = i + 1
          if (wrap.gt.0.and.(i.eq.(ni-2+wrap))) then
diff --git a/src/interp/ez_rgdint_3_nw.inc b/src/interp/ez_rgdint_3_nw.inc
index 3d6f4cf..5beb3d6 100644
--- a/src/interp/ez_rgdint_3_nw.inc
+++ b/src/interp/ez_rgdint_3_nw.inc
@@ -60,7 +60,7 @@
 
       do n=1,npts
          i = min(ni-2,max(2,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          dx = px(n) - i
          dy = py(n) - j
diff --git a/src/interp/ez_rgdint_3_w.inc b/src/interp/ez_rgdint_3_w.inc
index e4c8da5..4e49a82 100644
--- a/src/interp/ez_rgdint_3_w.inc
+++ b/src/interp/ez_rgdint_3_w.inc
@@ -71,7 +71,7 @@
 !zzzzzz$OMP DO private(n, i, j, imoins1, iplus1, iplus2, y1, y2, y3, y4)
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          if (wrap.gt.0) then
             imoins1 = mod(limite+i-1,limite)
diff --git a/src/interp/ez_rgdint_3_wnnc.inc b/src/interp/ez_rgdint_3_wnnc.inc
index ad60415..3cd539f 100644
--- a/src/interp/ez_rgdint_3_wnnc.inc
+++ b/src/interp/ez_rgdint_3_wnnc.inc
@@ -71,7 +71,7 @@
 
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          if (wrap.gt.0.and.(i.le.1).or.i.ge.(ni-1)) then
             imoins1 = mod(limite+i-1,limite)
-- 
2.43.0


From 441e8a849174fa30939054ada6800642f9cecc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 017/205] fix: linear interpolation between the first two rows
 of wrapping irregular grids uses these two rows

---
 src/interp/ez_irgdint_1_w.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_irgdint_1_w.inc b/src/interp/ez_irgdint_1_w.inc
index f4bc302..4c06938 100644
--- a/src/interp/ez_irgdint_1_w.inc
+++ b/src/interp/ez_irgdint_1_w.inc
@@ -31,7 +31,7 @@
       do n=1,npts
          limite = ni+2-wrap
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1+1, floor(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
 
          iplus1 = i+1
 
-- 
2.43.0


From ef6cd117799beb31ddd9485f05cabd5e8d6aaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 018/205] fix: linear interpolation between the last two
 columns of grids that do not wrap uses these two columns

---
 src/interp/ez_rgdint_1_w.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_rgdint_1_w.inc b/src/interp/ez_rgdint_1_w.inc
index 320bbdf..857b61d 100644
--- a/src/interp/ez_rgdint_1_w.inc
+++ b/src/interp/ez_rgdint_1_w.inc
@@ -30,7 +30,7 @@
       
       limite = ni +2 - wrap
       do n=1,npts
-         i = min(ni-2+wrap,max(1,ifix(px(n))))
+         i = min(ni-2+max(1,wrap),max(1,ifix(px(n))))
          j = min(j2-1,max(j1,floor(py(n))))
          
          iplus1 = i + 1
-- 
2.43.0


From 8a4dd77c969b50cfe97f70f0d44ac31e0ad1487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 019/205] fix: the fourth point past the repeated column of a
 global grid is in the second column (polar bands)

---
 src/interp/ez_irgdint_3_wnnc.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_irgdint_3_wnnc.inc b/src/interp/ez_irgdint_3_wnnc.inc
index 475f11b..c13bf26 100644
--- a/src/interp/ez_irgdint_3_wnnc.inc
+++ b/src/interp/ez_irgdint_3_wnnc.inc
@@ -111,7 +111,7 @@
             if (i.eq.(ni-1)) then
                imoins1 = ni-2
                iplus1  = ni
-               iplus2  = 1
+               iplus2  = 2
                x1 = ax(ni-2)
                x2 = ax(ni-1)
                x3 = ax(ni)
-- 
2.43.0


From 129f137dd7d01015b0bde1bfe57139f9536b5a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 020/205] fix: polar bands of hemispheric Gaussian grids use
 the outermost latitudes of the whole axis

---
 src/interp/ez_corrval_aunord.c | 16 ++++++++--------
 src/interp/ez_corrval_ausud.c  |  2 +-
 src/interp/ez_corrvec_aunord.c | 16 ++++++++--------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index dcf4bc6..14da52d 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -57,17 +57,17 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
                 case 'E':
                 case 'G': {
                     float ay[4];
-                    if  (lgd->ay[lgd->j2-1] == 90.0) {
-                        ay[0] = lgd->ay[lgd->j2-4];
-                        ay[1] = lgd->ay[lgd->j2-3];
-                        ay[2] = lgd->ay[lgd->j2-2];
-                        ay[3] = lgd->ay[lgd->j2-1];
+                    if  (lgd->ay[nj-1] == 90.0) {
+                        ay[0] = lgd->ay[nj-4];
+                        ay[1] = lgd->ay[nj-3];
+                        ay[2] = lgd->ay[nj-2];
+                        ay[3] = lgd->ay[nj-1];
                         f77name(ez_irgdint_3_wnnc)(vals,gset->zones[AU_NORD].x, gset->zones[AU_NORD].y,&npts,
                                     lgd->ax, ay, temp,&ni, &j1, &j2, &(lgd->extension));
                     } else {
-                        ay[0] = lgd->ay[lgd->j2-3];
-                        ay[1] = lgd->ay[lgd->j2-2];
-                        ay[2] = lgd->ay[lgd->j2-1];
+                        ay[0] = lgd->ay[nj-3];
+                        ay[1] = lgd->ay[nj-2];
+                        ay[2] = lgd->ay[nj-1];
                         ay[3] = 90.0;
                         f77name(ez_irgdint_3_wnnc)(vals,gset->zones[AU_NORD].x,
                                     gset->zones[AU_NORD].y,&npts,
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 78a0022..755c035 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -69,7 +69,7 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	     case 'Z':
 	     case 'E':
 	     case 'G':
-          if  (lgdin->ay[lgdin->j1-1] == -90.0)
+          if  (lgdin->ay[0] == -90.0)
              {
                 ay[0] = lgdin->ay[0];
                 ay[1] = lgdin->ay[1];
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index fc33c0c..4668220 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -67,18 +67,18 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
             case 'Z':
             case 'E':
             case 'G':
-            if (laGrille.ay[j1+1] == 90.0)
+            if (laGrille.ay[nj-1] == 90.0)
                 {
-                ay[0] = laGrille.ay[j1-2];
-                ay[1] = laGrille.ay[j1-1];
-                ay[2] = laGrille.ay[j1];
-                ay[3] = laGrille.ay[j1+1];
+                ay[0] = laGrille.ay[nj-4];
+                ay[1] = laGrille.ay[nj-3];
+                ay[2] = laGrille.ay[nj-2];
+                ay[3] = laGrille.ay[nj-1];
                 }
             else
                 {
-                ay[0] = laGrille.ay[j1-1];
-                ay[1] = laGrille.ay[j1];
-                ay[2] = laGrille.ay[j1+1];
+                ay[0] = laGrille.ay[nj-3];
+                ay[1] = laGrille.ay[nj-2];
+                ay[2] = laGrille.ay[nj-1];
                 ay[3] = 90.0;
                 }
 
-- 
2.43.0


From 40a14ec195ba9ffd8933f4253b47f5079e16d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 021/205] fix: polar bands of grids with a row at the pole
 interpolate between the rows the axis describes

---
 src/interp/ez_corrval_aunord.c | 4 +++-
 src/interp/ez_corrval_ausud.c  | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index 14da52d..898b8ab 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -62,8 +62,10 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
                         ay[1] = lgd->ay[nj-3];
                         ay[2] = lgd->ay[nj-2];
                         ay[3] = lgd->ay[nj-1];
+                        // The last row is at the pole: use the last four rows of the grid
+                        int32_t jpole1 = lgd->j2 - 3;
                         f77name(ez_irgdint_3_wnnc)(vals,gset->zones[AU_NORD].x, gset->zones[AU_NORD].y,&npts,
-                                    lgd->ax, ay, temp,&ni, &j1, &j2, &(lgd->extension));
+                                    lgd->ax, ay, &zin[(nj-4)*ni],&ni, &jpole1, &(lgd->j2), &(lgd->extension));
                     } else {
                         ay[0] = lgd->ay[nj-3];
                         ay[1] = lgd->ay[nj-2];
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 755c035..fcacef6 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -75,9 +75,12 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
                 ay[1] = lgdin->ay[1];
                 ay[2] = lgdin->ay[2];
                 ay[3] = lgdin->ay[3];
+                /* The first row is at the pole: use the first four rows of the grid */
+                j1 = lgdin->j1;
+                j2 = j1 + 3;
                 f77name(ez_irgdint_3_wnnc)(vals,gset->zones[AU_SUD].x,
                             gset->zones[AU_SUD].y,&npts,
-                            lgdin->ax, ay, temp,
+                            lgdin->ax, ay, zin,
                             &ni, &j1, &j2, &lgdin->extension);
              }
     else
-- 
2.43.0


From 440067e5cc4c6bc8d7d2f1388fac39c2ad27509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:01 +0000
Subject: [PATCH 022/205] fix: polar bands of E grids, which have no axes, use
 the regular interpolators

---
 src/interp/ez_corrval_aunord.c | 1 -
 src/interp/ez_corrval_ausud.c  | 1 -
 src/interp/ez_corrvec_aunord.c | 1 -
 src/interp/ez_corrvec_ausud.c  | 1 -
 4 files changed, 4 deletions(-)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index 898b8ab..1977a3c 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -54,7 +54,6 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
             case CUBIQUE:
             switch (lgd->grtyp[0]) {
                 case 'Z':
-                case 'E':
                 case 'G': {
                     float ay[4];
                     if  (lgd->ay[nj-1] == 90.0) {
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index fcacef6..1c896db 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -67,7 +67,6 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	   switch (lgdin->grtyp[0])
 	     {
 	     case 'Z':
-	     case 'E':
 	     case 'G':
           if  (lgdin->ay[0] == -90.0)
              {
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index 4668220..c4614ba 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -65,7 +65,6 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
         switch (laGrille.grtyp[0])
             {
             case 'Z':
-            case 'E':
             case 'G':
             if (laGrille.ay[nj-1] == 90.0)
                 {
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index f9f3ad4..268f02a 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -62,7 +62,6 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
         case CUBIQUE:
             switch (laGrille.grtyp[0]) {
                 case 'Z':
-                case 'E':
                 case 'G':
                 if (laGrille.ay[0] == -90.0)
                     {
-- 
2.43.0


From 5377f9380e82c1125cd113f65014754658b49d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:01 +0000
Subject: [PATCH 023/205] fix: the poles of E grids are the poles of the
 rotated grid, as for Z grids on E

---
 src/interp/ez_defzone_polenord.c | 2 +-
 src/interp/ez_defzone_polesud.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_defzone_polenord.c b/src/interp/ez_defzone_polenord.c
index af7acb7..e05e0bb 100644
--- a/src/interp/ez_defzone_polenord.c
+++ b/src/interp/ez_defzone_polenord.c
@@ -43,7 +43,7 @@ int32_t ez_defzone_polenord(int32_t gdin, float *x, float *y, int32_t npts, _zon
     tmpidx = (int32_t  *) malloc(npts*sizeof(int32_t));
 
     nhits = 0;
-    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E') {
+    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'E' || (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E')) {
         xpolenord = 0.5 * Grille[gdrow_in][gdcol_in].ni;
         ypolenord = Grille[gdrow_in][gdcol_in].nj+0.5;
     } else {
diff --git a/src/interp/ez_defzone_polesud.c b/src/interp/ez_defzone_polesud.c
index 4e0c7e4..ca2015d 100644
--- a/src/interp/ez_defzone_polesud.c
+++ b/src/interp/ez_defzone_polesud.c
@@ -43,7 +43,7 @@ int32_t ez_defzone_polesud(int32_t gdin, float *x, float *y, int32_t npts, _zone
 
     nhits = 0;
 
-    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E') {
+    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'E' || (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E')) {
         xpolesud = 0.5 * Grille[gdrow_in][gdcol_in].ni;
         ypolesud = 0.5;
     } else {
-- 
2.43.0


From 69539ee5a6a22f432416b96dd4d413b0fab4fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:31 +0000
Subject: [PATCH 024/205] fix: only points past the repeated column of B grids
 wrap to the second column (cubic)

---
 src/interp/ez_rgdint_3_w.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_rgdint_3_w.inc b/src/interp/ez_rgdint_3_w.inc
index 4e49a82..36f3c53 100644
--- a/src/interp/ez_rgdint_3_w.inc
+++ b/src/interp/ez_rgdint_3_w.inc
@@ -84,7 +84,7 @@
             if (iplus2.eq.0) iplus2 = ni
 
             if (wrap.eq.1) then
-               if (iplus2.eq.ni) iplus2 = 2
+               if (i.eq.ni-1) iplus2 = 2
                if (imoins1.eq.ni) imoins1=ni-1
             endif
          else
-- 
2.43.0


From 53a468f8882c4976bea8702eb9b61143bacdcc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:23 +0000
Subject: [PATCH 025/205] fix: the band next to the south pole starts at the
 last row also when rows are numbered below zero

---
 src/interp/ez_defzone_sud.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_defzone_sud.c b/src/interp/ez_defzone_sud.c
index aaf2104..a511683 100644
--- a/src/interp/ez_defzone_sud.c
+++ b/src/interp/ez_defzone_sud.c
@@ -41,7 +41,7 @@ int32_t ez_defzone_sud(int32_t gdin, float *x, float *y, int32_t npts, _zone *zo
     nhits = 0;
     jmin = Grille[gdrow_in][gdcol_in].j1+1;
     for (int32_t i = 0; i < npts; i++) {
-        if ((int)y[i] < jmin) {
+        if (y[i] < jmin) {
             tmpx[nhits] = x[i];
             tmpy[nhits] = y[i];
             tmpidx[nhits]=i;
-- 
2.43.0


From c19719e05d31ac3e454ff612600ea73dcb05b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:14 +0000
Subject: [PATCH 026/205] fix: points before the first longitude of a global Z
 grid lie between its last and first columns

---
 src/interp/ez_ll2igd.inc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/ez_ll2igd.inc b/src/interp/ez_ll2igd.inc
index df63389..0c5e265 100644
--- a/src/interp/ez_ll2igd.inc
+++ b/src/interp/ez_ll2igd.inc
@@ -78,6 +78,10 @@ subroutine ez_ll2igd(px, py, xlat, xlon, npts, ni, nj, grtyp, grref, ig1, ig2, i
 
     if (coordflag == relatif) then
         do i = 1, npts
+            ! On a grid that goes around the globe, what precedes the first longitude follows the last one
+            if (grref == 'L' .and. px(i) < ax(1)) then
+                if (ax(1) + 360.0 - ax(ni) <= 1.01 * (ax(ni) - ax(ni - 1))) px(i) = px(i) + 360.0
+            endif
             indx = ez_cherche(px(i), ax, ni)
             indy = ez_cherche(py(i), ay, nj)
 
-- 
2.43.0


From e0bd1cf2130160c587fe4fa23ce32021a2c7f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:14 +0000
Subject: [PATCH 027/205] fix: the wind at the south pole is turned by minus
 the longitude of the first point too

---
 src/interp/ez_calcspolarwind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_calcspolarwind.c b/src/interp/ez_calcspolarwind.c
index 19bfd16..e21b1fb 100644
--- a/src/interp/ez_calcspolarwind.c
+++ b/src/interp/ez_calcspolarwind.c
@@ -110,7 +110,7 @@ int32_t ez_calcspolarwind(
         polar_spd[i] = polar_spd[0];
         polar_lat[i] = -90.0;
     }
-    polar_wd[0] = polar_wd[0] + polar_lon[0];
+    polar_wd[0] = polar_wd[0] - polar_lon[0];
 
     c_gduvfwd(gda, polar_uu, polar_vv, polar_spd,  polar_wd, polar_lat, polar_lon, ni);
 
-- 
2.43.0


From 39089b475d24fcfe5b3d75112c3433ca48714bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:14 +0000
Subject: [PATCH 028/205] fix: polar winds of hemispheric and north-to-south
 grids use the mirrored, south-to-north fields

---
 src/interp/ez_calcnpolarwind.c |  3 ++-
 src/interp/ez_corrvec.c        | 41 ++++++++++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/interp/ez_calcnpolarwind.c b/src/interp/ez_calcnpolarwind.c
index 8e00cc5..bb3bd4f 100644
--- a/src/interp/ez_calcnpolarwind.c
+++ b/src/interp/ez_calcnpolarwind.c
@@ -62,7 +62,8 @@ int32_t ez_calcnpolarwind(
     }
 
     c_gdllfxy_orig(gdin, polar_lat, polar_lon, polar_x, polar_y, ni);
-    c_ezgxprm(gdin, &ni, &nj, grtyp, &ig1in, &ig2in, &ig3in, &ig4in,
+    int32_t ni_stored, nj_stored;
+    c_ezgxprm(gdin, &ni_stored, &nj_stored, grtyp, &ig1in, &ig2in, &ig3in, &ig4in,
             grref, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref);
 
     if (grtyp[0] == 'Z' && grref[0] == 'E') {
diff --git a/src/interp/ez_corrvec.c b/src/interp/ez_corrvec.c
index 1ed78ca..e167fe1 100644
--- a/src/interp/ez_corrvec.c
+++ b/src/interp/ez_corrvec.c
@@ -18,9 +18,37 @@
  * Boston, MA 02111-1307, USA.
  */
 
+#include <stdlib.h>
+#include <string.h>
+
 #include <rmn/ezscint.h>
+#include "base/base.h"
 #include "ez_funcdef.h"
 
+
+//! Copy of a source field with rows from south to north and mirrored onto the missing hemisphere, as expected by the polar corrections
+static float *ez_south_to_north_global(int32_t gdin, float *zin, int32_t symmetrie) {
+    int32_t gdrow_in, gdcol_in;
+    c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
+    _Grille * gr = &Grille[gdrow_in][gdcol_in];
+    size_t npts = (size_t) gr->ni * gr->nj;
+
+    float * lzin = (float *) malloc(npts * sizeof(float));
+    memcpy(lzin, zin, npts * sizeof(float));
+    if (gr->fst.axe_y_inverse == 1) {
+        f77name(permut)(lzin, &gr->ni, &gr->nj);
+    }
+    if (gr->needs_expansion != 1) return lzin;
+
+    float * lxzin = (float *) malloc(2 * npts * sizeof(float));
+    int32_t old_symmetrie = groptions.symmetrie;
+    groptions.symmetrie = symmetrie;
+    ez_xpnsrcgd(gdin, lxzin, lzin);
+    groptions.symmetrie = old_symmetrie;
+    free(lzin);
+    return lxzin;
+}
+
 int32_t ez_corrvec(float *uuout, float *vvout, float *uuin, float *vvin, int32_t gdin, int32_t gdout) {
     int32_t gdrow_in, gdrow_out, gdcol_in, gdcol_out, idx_gdin;
     c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
@@ -28,21 +56,26 @@ int32_t ez_corrvec(float *uuout, float *vvout, float *uuin, float *vvin, int32_t
     idx_gdin = c_find_gdin(gdin, gdout);
 
     _gridset * gset = &(Grille[gdrow_out][gdcol_out].gset[idx_gdin]);
+
+    float * lu = ez_south_to_north_global(gdin, uuin, SYM);
+    float * lv = ez_south_to_north_global(gdin, vvin, ANTISYM);
     if (gset->zones[AU_NORD].npts > 0) {
-        ez_corrvec_aunord(uuout,vvout,uuin,vvin, gdin, gdout);
+        ez_corrvec_aunord(uuout,vvout,lu,lv, gdin, gdout);
     }
 
     if (gset->zones[AU_SUD].npts > 0) {
-        ez_corrvec_ausud(uuout,vvout,uuin,vvin, gdin, gdout);
+        ez_corrvec_ausud(uuout,vvout,lu,lv, gdin, gdout);
     }
 
     if (gset->zones[POLE_NORD].npts > 0) {
-        ez_corrvec_aunord(uuout,vvout,uuin,vvin, gdin, gdout);
+        ez_corrvec_aunord(uuout,vvout,lu,lv, gdin, gdout);
     }
 
     if (gset->zones[POLE_SUD].npts > 0) {
-        ez_corrvec_ausud(uuout,vvout,uuin,vvin, gdin, gdout);
+        ez_corrvec_ausud(uuout,vvout,lu,lv, gdin, gdout);
     }
 
+    free(lu);
+    free(lv);
     return 0;
 }
-- 
2.43.0


From 0734ab02ac34315e390d45f5842c6162a91e837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:14 +0000
Subject: [PATCH 029/205] fix: polar winds of grids with a row at the pole
 interpolate between the rows the axis describes

---
 src/interp/ez_corrvec_aunord.c | 8 ++++++++
 src/interp/ez_corrvec_ausud.c  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index c4614ba..6febe49 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -68,6 +68,14 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
             case 'G':
             if (laGrille.ay[nj-1] == 90.0)
                 {
+                /* The last row is at the pole: use the last four rows of the grid */
+                for (i=0; i < 4*ni; i++)
+                    {
+                    polar_uu_in[i] = uuin[(nj-4)*ni+i];
+                    polar_vv_in[i] = vvin[(nj-4)*ni+i];
+                    }
+                j1 = laGrille.j2 - 3;
+                j2 = laGrille.j2;
                 ay[0] = laGrille.ay[nj-4];
                 ay[1] = laGrille.ay[nj-3];
                 ay[2] = laGrille.ay[nj-2];
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index 268f02a..1cb9852 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -65,6 +65,14 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
                 case 'G':
                 if (laGrille.ay[0] == -90.0)
                     {
+                    /* The first row is at the pole: use the first four rows of the grid */
+                    for (i=0; i < 4*ni; i++)
+                        {
+                        polar_uu_in[i] = uuin[i];
+                        polar_vv_in[i] = vvin[i];
+                        }
+                    j1 = laGrille.j1;
+                    j2 = j1 + 3;
                     ay[0] = laGrille.ay[0];
                     ay[1] = laGrille.ay[1];
                     ay[2] = laGrille.ay[2];
-- 
2.43.0


From 6d7c1ca4d07a6e71ec90edb3b62dd40a0323317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:14 +0000
Subject: [PATCH 030/205] fix: the wind at the poles of E grids is computed in
 the rotated frame, as for Z grids on E

---
 src/interp/ez_calcnpolarwind.c |  8 ++++++--
 src/interp/ez_calcspolarwind.c | 10 +++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/interp/ez_calcnpolarwind.c b/src/interp/ez_calcnpolarwind.c
index bb3bd4f..6b39310 100644
--- a/src/interp/ez_calcnpolarwind.c
+++ b/src/interp/ez_calcnpolarwind.c
@@ -66,7 +66,7 @@ int32_t ez_calcnpolarwind(
     c_ezgxprm(gdin, &ni_stored, &nj_stored, grtyp, &ig1in, &ig2in, &ig3in, &ig4in,
             grref, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref);
 
-    if (grtyp[0] == 'Z' && grref[0] == 'E') {
+    if (grtyp[0] == 'E' || (grtyp[0] == 'Z' && grref[0] == 'E')) {
         polar_lat_gem   = (float *) malloc(ni*sizeof(float));
         polar_lon_gem   = (float *) malloc(ni*sizeof(float));
 
@@ -75,7 +75,11 @@ int32_t ez_calcnpolarwind(
             polar_lon_gem[i] = polar_lon[i];
         }
 
-        f77name(cigaxg)(grref, &xlat1, &xlon1, &xlat2, &xlon2, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref,1);
+        if (grtyp[0] == 'E') {
+            f77name(cigaxg)(grtyp, &xlat1, &xlon1, &xlat2, &xlon2, &ig1in, &ig2in, &ig3in, &ig4in,1);
+        } else {
+            f77name(cigaxg)(grref, &xlat1, &xlon1, &xlat2, &xlon2, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref,1);
+        }
         f77name(ez_gfxyfll)(polar_lon_gem, polar_lat_gem, polar_lon, polar_lat, &ni, &xlat1, &xlon1, &xlat2, &xlon2);
     }
 
diff --git a/src/interp/ez_calcspolarwind.c b/src/interp/ez_calcspolarwind.c
index e21b1fb..038ff4b 100644
--- a/src/interp/ez_calcspolarwind.c
+++ b/src/interp/ez_calcspolarwind.c
@@ -68,7 +68,7 @@ int32_t ez_calcspolarwind(
     c_ezgxprm(gdin, &ni, &nj, grtyp, &ig1in, &ig2in, &ig3in, &ig4in,
             grref, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref);
 
-    if (grtyp[0] == 'Z' && grref[0] == 'E') {
+    if (grtyp[0] == 'E' || (grtyp[0] == 'Z' && grref[0] == 'E')) {
         polar_lat_gem   = (float *) malloc(ni*sizeof(float));
         polar_lon_gem   = (float *) malloc(ni*sizeof(float));
 
@@ -77,7 +77,11 @@ int32_t ez_calcspolarwind(
             polar_lon_gem[i] = polar_lon[i];
     }
 
-        f77name(cigaxg)(grref, &xlat1, &xlon1, &xlat2, &xlon2, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref,1);
+        if (grtyp[0] == 'E') {
+            f77name(cigaxg)(grtyp, &xlat1, &xlon1, &xlat2, &xlon2, &ig1in, &ig2in, &ig3in, &ig4in,1);
+        } else {
+            f77name(cigaxg)(grref, &xlat1, &xlon1, &xlat2, &xlon2, &ig1in_ref, &ig2in_ref, &ig3in_ref, &ig4in_ref,1);
+        }
         f77name(ez_gfxyfll)(polar_lon_gem, polar_lat_gem, polar_lon, polar_lat, &ni, &xlat1, &xlon1, &xlat2, &xlon2);
     }
 
@@ -137,7 +141,7 @@ int32_t ez_calcspolarwind(
     free(polar_vv);
     free(polar_uu);
 
-    if (grtyp[0] == 'Z' && grref[0] == 'E' && polar_lat_gem != NULL) {
+    if (polar_lat_gem != NULL) {
         free(polar_lat_gem);
         free(polar_lon_gem);
     }
-- 
2.43.0


From 1f5ca5cae419bc86a957daf3c403b17c65690576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:07 +0000
Subject: [PATCH 031/205] fix: vector interpolation reports that it was asked
 to abort on extrapolation

---
 src/interp/ezuvint.c | 4 ++++
 src/interp/ezwdint.c | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/interp/ezuvint.c b/src/interp/ezuvint.c
index f542904..8aaf957 100644
--- a/src/interp/ezuvint.c
+++ b/src/interp/ezuvint.c
@@ -73,6 +73,10 @@ int32_t c_ezuvint_orig(float *uuout, float *vvout, float *uuin, float *vvin)
     if (ierc1 == 2 || ierc2 == 2) {
         ierc = 2;
     }
+    if (ierc1 < 0 || ierc2 < 0) {
+        groptions.vecteur = SCALAIRE;
+        return -1;
+    }
 
     if (groptions.polar_correction == 1) {
         ez_corrvec(uuout, vvout, uuin, vvin, gdin, gdout);
diff --git a/src/interp/ezwdint.c b/src/interp/ezwdint.c
index 867d355..d3b5bbe 100644
--- a/src/interp/ezwdint.c
+++ b/src/interp/ezwdint.c
@@ -90,6 +90,12 @@ int32_t c_ezwdint_orig(float *uuout, float *vvout, float *uuin, float *vvin)
 
    groptions.symmetrie = SYM;
 
+   if (ierc1 < 0 || ierc2 < 0)
+      {
+      groptions.vecteur = SCALAIRE;
+      return -1;
+      }
+
    if (groptions.polar_correction == 1) {
      ez_corrvec(uuout, vvout, uuin, vvin, gdin, gdout);
    }
-- 
2.43.0


From 02e296aa97d0e3c7dfc52917f8c3d6088cc4604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:07 +0000
Subject: [PATCH 032/205] fix: cubic weights across the wrap of a global Z grid
 that does not start at longitude 0

---
 src/interp/ez_nwtncof.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_nwtncof.inc b/src/interp/ez_nwtncof.inc
index 3bb6ca9..1da7d25 100644
--- a/src/interp/ez_nwtncof.inc
+++ b/src/interp/ez_nwtncof.inc
@@ -138,7 +138,7 @@
    endif
 
    if (extension.eq.2) then
-      x1 = ax(1) - (360.0 - ax(ni))
+      x1 = ax(ni) - 360.0
       x2 = ax(1)
       x3 = ax(2)
       x4 = ax(3)
-- 
2.43.0


From bf6ac263b124f5ba6582990af4ce75e71e3b405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:56 +0000
Subject: [PATCH 033/205] fix: the search for an already defined grid compares
 the reference grid and always advances

---
 src/interp/ez_findgrid.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/interp/ez_findgrid.c b/src/interp/ez_findgrid.c
index bfe9a07..01af5cd 100644
--- a/src/interp/ez_findgrid.c
+++ b/src/interp/ez_findgrid.c
@@ -56,14 +56,15 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                 index_found = refgd->index;
                 break;
             }
-            if (gr->fst.igref[IG1] == refgd->fst.igref[IG1] &&
+            if (gr->grref[0] == refgd->grref[0] &&
+                gr->fst.igref[IG1] == refgd->fst.igref[IG1] &&
                 gr->fst.igref[IG2] == refgd->fst.igref[IG2] &&
                 gr->fst.igref[IG3] == refgd->fst.igref[IG3] &&
                 gr->fst.igref[IG4] == refgd->fst.igref[IG4]) {
                 if (refgd->ax != NULL && refgd->ay != NULL && gr->ax != NULL && gr->ay != NULL) {
                     resax = 0;
                     resay = 0;
-                    if (refgd->grtyp[0] == 'Z') {
+                    if (refgd->grtyp[0] == 'Z' || refgd->grtyp[0] == '#') {
                         for (i=0; i < gr->ni; i++) {
                             if (refgd->ax[i] != gr->ax[i]) {
                                 resax = 1;
@@ -103,20 +104,15 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                     if (resax == 0 && resay == 0) {
                         found = 1;
                         index_found = refgd->index;
-                    } else {
-                        if (refgd->next_gd == -1) {
-                            end_reached = 1;
-                        } else {
-                            c_gdkey2rowcol(refgd->next_gd, &gdrow, &gdcol);
-                            refgd = &Grille[gdrow][gdcol];
-                        }
                     }
                 } else {
                     found = 1;
                     index_found = refgd->index;
                 }
             }
-        } else {
+        }
+
+        if (found == -1) {
             if (refgd->next_gd == -1) {
                 end_reached = 1;
             } else {
@@ -126,7 +122,9 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
         }
     }
 
-    refgd->access_count++;
+    if (found != -1) {
+        refgd->access_count++;
+    }
 #ifdef MUTEX
     pthread_mutex_unlock(&EZ_MTX);
 #endif
-- 
2.43.0


From 3607b48a9c94415d5227529469d2f3b42bc0647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:08 +0000
Subject: [PATCH 034/205] fix: the table of sources of a target grid is
 searched and enlarged consistently

---
 src/interp/ez_find_gdin.c         | 37 +++++--------------------------
 src/interp/ez_find_gdin_in_gset.c |  2 +-
 src/interp/ezdefset.c             |  5 ++---
 3 files changed, 8 insertions(+), 36 deletions(-)

diff --git a/src/interp/ez_find_gdin.c b/src/interp/ez_find_gdin.c
index 18ed8ae..95a67d5 100644
--- a/src/interp/ez_find_gdin.c
+++ b/src/interp/ez_find_gdin.c
@@ -4,43 +4,16 @@
 #include "ez_funcdef.h"
 
 int c_find_gdin(int gdin, int gdout) {
-    int i, gdrow_out, gdcol_out, idx_gdin, found;
-    _gridset *gset;
+    int gdrow_out, gdcol_out, idx_gdin;
 
     c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
-    idx_gdin = Grille[gdrow_out][gdcol_out].idx_last_gdin;
-    if (idx_gdin == -1){
+    if (Grille[gdrow_out][gdcol_out].n_gdin == 0) {
         c_ezdefset(gdout, gdin);
-        idx_gdin = gdin % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
     }
 
-    gset = Grille[gdrow_out][gdcol_out].gset;
-    if (gset[idx_gdin].gdin == gdin) {
-        return idx_gdin;
-    }
-
-    idx_gdin = gdin % primes[cur_log_chunk];
-    if (gset[idx_gdin].gdin == gdin) {
-        return idx_gdin;
-    }
-
-    i = idx_gdin + 1;
-    found = 0;
-    while (found == 0 && i != idx_gdin && gset[i].gdin != -1) {
-        if (gset[i].gdin == gdin) {
-            found = 1;
-            idx_gdin = i;
-        }
-        i++;
-        if (0 == (i % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin])) {
-            i = 0;
-        }
-    }
-
-    if (found == 0) {
-        return -1;
-    } else {
+    idx_gdin = ez_find_gdin_in_gset(gdin, gdout);
+    if (idx_gdin != -1) {
         Grille[gdrow_out][gdcol_out].idx_last_gdin = idx_gdin;
-        return idx_gdin;
     }
+    return idx_gdin;
 }
diff --git a/src/interp/ez_find_gdin_in_gset.c b/src/interp/ez_find_gdin_in_gset.c
index 54b9643..3393e33 100644
--- a/src/interp/ez_find_gdin_in_gset.c
+++ b/src/interp/ez_find_gdin_in_gset.c
@@ -30,7 +30,7 @@
     else
       {
       i++;
-      if (0 == (i % primes[cur_log_chunk]))
+      if (0 == (i % primes[gr->log_chunk_gdin]))
         {
         i = 0;
         }
diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index d341d50..e9dfb61 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -106,7 +106,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
          found = i;
          iset_gdin = gdin;
          iset_gdout = gdout;
-         Grille[gdrow_out][gdcol_out].idx_last_gdin = Grille[gdrow_out][gdcol_out].gset[i].gdin;
+         Grille[gdrow_out][gdcol_out].idx_last_gdin = i;
          return 1;
       }
       else
@@ -196,11 +196,10 @@ void reallocate_gridset_table(int gdid) {
             if (newTable[newIndex].gdin == -1) {
                 memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
             } else {
-                newIndex++;
+                newIndex = (newIndex + 1) % newChunkSize;
                 inserted = -1;
                 /** && curIndex != (newIndex-1)) (a reverifier-- Yves-20120228)**/
                 while (inserted == -1) {
-                    fprintf(stderr, "reallocate_gridset_table -- should not be here\n ");
                     if (newTable[newIndex].gdin == -1) {
                         memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
                         inserted = 1;
-- 
2.43.0


From 3f9e9a5082e3f0ec42850c7523e210203449a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:30 +0000
Subject: [PATCH 035/205] fix: more sources than the largest table of a target
 grid holds

---
 src/interp/ezdefset.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index e9dfb61..54cc0ad 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -72,16 +72,18 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
       gr->log_chunk_gdin = cur_log_chunk;
    }
 
-   if (nsets >= primes[MAX_LOG_CHUNK])
+   if (gr->log_chunk_gdin == MAX_LOG_CHUNK && nsets >= primes[MAX_LOG_CHUNK] / 2)
    {
-      for (i=0; i < nsets; i++)
+      /* The table is as large as it can be : start again with an empty one */
+      for (i=0; i < primes[gr->log_chunk_gdin]; i++)
       {
-         if (gr->gset[i].gdin != -1)
+         if (gr->gset[i].gdin >= 0)
          {
-            c_ezfreegridset(gdin, i);
+            c_ezfreegridset(gdout, i);
          }
       }
-      nsets = 0;
+      free(gr->gset);
+      gr->n_gdin = 0;
       allocate_gridset_table(gdout);
       gr->log_chunk_gdin = cur_log_chunk;
    }
@@ -133,7 +135,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
    gr->gset[i].y = malloc (sizeof(float)*npts);
    gr->gset[i].use_sincos_cache = 0;
 
-   if (gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
+   if (gr->log_chunk_gdin < MAX_LOG_CHUNK && gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
    {
       reallocate_gridset_table(gdout);
    }
@@ -191,7 +193,7 @@ void reallocate_gridset_table(int gdid) {
     }
 
     for (int32_t i = 0 ; i < oldChunkSize; i++) {
-        if (gr->gset[i].gdin != -1) {
+        if (gr->gset[i].gdin >= 0) {
             newIndex = gr->gset[i].gdin % newChunkSize;
             if (newTable[newIndex].gdin == -1) {
                 memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
-- 
2.43.0


From 9e7d4569c4fe28e74510657b569828357c4834a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:50 +0000
Subject: [PATCH 036/205] fix: releasing a grid no longer disturbs the others

---
 src/interp/gdrls.c | 63 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/interp/gdrls.c b/src/interp/gdrls.c
index 2570785..69e56f8 100644
--- a/src/interp/gdrls.c
+++ b/src/interp/gdrls.c
@@ -31,6 +31,9 @@ extern pthread_mutex_t EZ_MTX;
 #endif
 
 
+//! Marks an entry of a table of sources whose source was released
+#define RELEASED -2
+
 void EliminerGrille(int32_t gdid) {
 #ifdef MUTEX
     pthread_mutex_lock(&EZ_MTX);
@@ -65,14 +68,62 @@ void EliminerGrille(int32_t gdid) {
            }
         }
 
-        for (int32_t i = 0; i < Grille[gdrow_id][gdcol_id].n_gdin_for; i++) {
-            int32_t index = ez_find_gdin_in_gset(gdid, Grille[gdrow_id][gdcol_id].gdin_for[i]);
-            c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
+        _Grille *gr = &(Grille[gdrow_id][gdcol_id]);
+
+        // Forget what was computed with this grid as the source
+        for (int32_t i = 0; i < gr->n_gdin_for; i++) {
+            int32_t row, col;
+            c_gdkey2rowcol(gr->gdin_for[i], &row, &col);
+            if (Grille[row][col].n_gdin > 0) {
+                int32_t index = ez_find_gdin_in_gset(gdid, gr->gdin_for[i]);
+                if (index != -1) {
+                    c_ezfreegridset(gr->gdin_for[i], index);
+                    memset(&(Grille[row][col].gset[index]), 0, sizeof(_gridset));
+                    Grille[row][col].gset[index].gdin = RELEASED;
+                }
+            }
+        }
+        free(gr->gdin_for);
+
+        // and with this grid as the target
+        if (gr->n_gdin > 0) {
+            for (int32_t i = 0; i < primes[gr->log_chunk_gdin]; i++) {
+                if (gr->gset[i].gdin >= 0) {
+                    c_ezfreegridset(gdid, i);
+                }
+            }
+            free(gr->gset);
         }
 
-        gr_list[Grille[gdrow_id][gdcol_id].grid_index] = (_Grille *) NULL;
-        memset(&(Grille[gdrow_id][gdcol_id]), 0, sizeof(_Grille));
-        nGrilles--;
+        // Remove it from the list of the grids that share its entry
+        if (gr_list[gr->grid_index] == gr) {
+            gr_list[gr->grid_index] = (_Grille *) NULL;
+            if (gr->next_gd != -1) {
+                int32_t row, col;
+                c_gdkey2rowcol(gr->next_gd, &row, &col);
+                gr_list[gr->grid_index] = &(Grille[row][col]);
+            }
+        } else {
+            _Grille *prev = gr_list[gr->grid_index];
+            while (prev->next_gd != gdid) {
+                int32_t row, col;
+                c_gdkey2rowcol(prev->next_gd, &row, &col);
+                prev = &(Grille[row][col]);
+            }
+            prev->next_gd = gr->next_gd;
+        }
+
+        memset(gr, 0, sizeof(_Grille));
+        gr->index = -1;
+
+        // Only the identifiers after the last grid in use are given out again
+        while (nGrilles > 0) {
+            c_gdkey2rowcol(nGrilles - 1, &gdrow_id, &gdcol_id);
+            if (Grille[gdrow_id][gdcol_id].index != -1) {
+                break;
+            }
+            nGrilles--;
+        }
     }
 
 #ifdef MUTEX
-- 
2.43.0


From 0943c84578853599ad1ab6b87c3aea57b4c2c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:50 +0000
Subject: [PATCH 037/205] fix: ezgetopt knows the average and sph_average
 degrees

---
 src/interp/ezgetopt.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/interp/ezgetopt.c b/src/interp/ezgetopt.c
index 1297cd1..455b450 100644
--- a/src/interp/ezgetopt.c
+++ b/src/interp/ezgetopt.c
@@ -116,6 +116,14 @@ int32_t c_ezgetopt(char *option, char *value)
                 strcpy(value, "cubic");
                 break;
 
+            case 4:
+                strcpy(value, "average");
+                break;
+
+            case 5:
+                strcpy(value, "sph_average");
+                break;
+
             default:
                 strcpy(value, "error");
                 break;
@@ -136,6 +144,14 @@ int32_t c_ezgetopt(char *option, char *value)
                 strcpy(value, "cubique");
                 break;
 
+            case 4:
+                strcpy(value, "average");
+                break;
+
+            case 5:
+                strcpy(value, "sph_average");
+                break;
+
             default:
                 strcpy(value, "erreur");
                 break;
-- 
2.43.0


From 40c552beff9bd53e8f25340aa2f35cd448e34791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:13 +0000
Subject: [PATCH 038/205] fix: ezgetval returns the missing_gridpt_distance
 that ezsetval sets

---
 src/interp/ezgetval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interp/ezgetval.c b/src/interp/ezgetval.c
index e34eb6a..b091bdb 100644
--- a/src/interp/ezgetval.c
+++ b/src/interp/ezgetval.c
@@ -69,6 +69,11 @@ int32_t c_ezgetval(char *option, float *fvalue)
       *fvalue = groptions.valeur_extrap;
       }
 
+   if (0 == strcmp(local_opt, "missing_gridpt_distance" ))
+      {
+      *fvalue = groptions.msg_gridpt_dist;
+      }
+
    if (0 == strcmp(local_opt, "missing_distance_threshold" ))
       {
       *fvalue = groptions.msg_dist_thresh;
-- 
2.43.0


From b0ed9a2e9b53f8c6744c7758c84a9daa5e3db811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 039/205] fix: a refused insertion into a jar no longer writes
 beyond its end

---
 src/serializer/jar_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index 5111451..e441451 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -369,10 +369,10 @@ module rmn_jar
             insertion_pos = jar_instance%top                                        ! insert after data currently in jar
         endif
         if (insertion_pos < 0) return                                               ! invalid insertion position
-        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         size_elem = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
         if (insertion_pos + size_elem > jar_instance%size_elem) return              ! jar would overflow
+        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
         call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-- 
2.43.0


From e00d236b494659085514c49497c2241295d81441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 040/205] fix: inserting an object into a jar does not read
 beyond the object

---
 src/serializer/jar_mod.F90 | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index e441451..00ebc5e 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -355,7 +355,7 @@ module rmn_jar
         integer(JAR_ELEMENT), intent(IN), optional :: position  !> Insertion point (1 = start of jar), optional
         logical :: success                                      !> Whether the operation succeeded
 
-        integer(JAR_ELEMENT) :: size_elem, insertion_pos
+        integer(JAR_ELEMENT) :: size_elem, size_elem_down, insertion_pos
         type(C_PTR) :: temp
         integer(JAR_ELEMENT), dimension(:), pointer :: object_as_array, jar_content
 
@@ -375,8 +375,26 @@ module rmn_jar
         if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
-        call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-        jar_content(insertion_pos + 1 : insertion_pos + size_elem) = object_as_array(1 : size_elem)  ! insert into data portion of jar
+        size_elem_down = size_bits / storage_size(jar_content(1))                   ! number of complete elements in object
+        call C_F_POINTER(temp, object_as_array, [size_elem_down])                   ! make what into an integer array
+        jar_content(insertion_pos + 1 : insertion_pos + size_elem_down) = object_as_array(1 : size_elem_down)  ! insert into data portion of jar
+
+        if (size_elem > size_elem_down) then
+            ! Insert the bytes of the last, incomplete, element. Nothing is read beyond the end of the object
+            block
+                integer(C_INT64_T)   :: size_byte, size_byte_down
+                integer(C_INT8_T)    :: byte
+                integer(C_INT8_T), dimension(:), pointer :: last_bytes, object_bytes
+
+                size_byte      = (size_bits + storage_size(byte) - 1) / storage_size(byte)
+                size_byte_down = size_elem_down * (storage_size(jar_content(1)) / storage_size(byte))
+                call C_F_POINTER(temp, object_bytes, [size_byte])                   ! object as a byte array
+                jar_content(insertion_pos + size_elem) = 0
+                call C_F_POINTER(C_LOC(jar_content(insertion_pos + size_elem)), last_bytes, [storage_size(jar_content(1)) / storage_size(byte)])
+                last_bytes(1 : size_byte - size_byte_down) = object_bytes(size_byte_down + 1 : size_byte)
+            end block
+        end if
+
         jar_instance%top = insertion_pos + size_elem                                ! update top of jar position
         success = .true.
 
-- 
2.43.0


From 55baf0429a69ab069870036e67f7d68b75697b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 041/205] fix: character blocks could be neither replaced nor
 deleted in a BURP report

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index fcc54a7..ba76416 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -912,7 +912,7 @@ int c_xdfcut(
       return(ERR_BAD_ADDR);
    }
 
-   if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+   if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
       Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
       return(ERR_BAD_DATYP);
    }
@@ -2402,7 +2402,7 @@ int c_xdfrep(
         return(ERR_BAD_ADDR);
     }
 
-    if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+    if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
         return(ERR_BAD_DATYP);
     }
-- 
2.43.0


From 60b984ac48a34c5ee60cbd7a96c2d9d75dbd3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 042/205] fix: insertion in a record buffer could write beyond
 its end

---
 src/fstd98/xdf98.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index ba76416..ce60441 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -26,6 +26,7 @@
     @author J. Caveen
 */
 
+#include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -45,6 +46,9 @@
 #include "qstdir.h"
 #include "burp98.h"
 
+//! Number of words that can be stored in the data part of a buffer
+#define BUF_CAPACITY(buf) ((int)((buf)->nwords - offsetof(buffer_interface, data) / sizeof(uint32_t)))
+
 static int endian_int = 1;
 static char *little_endian = (char *)&endian_int;
 static int req_no = 0;
@@ -668,7 +672,7 @@ int c_xdfadd(
     buffer_interface_ptr buf = (buffer_interface_ptr) buffer;
     int index_word = buf->nbits / (sizeof(uint32_t) * 8);
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > BUF_CAPACITY(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
@@ -926,10 +930,10 @@ int c_xdfcut(
 
    // Move buffer content nbwords to the left
    if (last_ind != index_word) {
-      for (i=index_word; i <= last_ind-nbwords; i++) {
+      for (i=index_word; i < last_ind-nbwords; i++) {
          buf->data[i] = buf->data[i+nbwords];
       }
-      for( ; i <= last_ind; i++) {
+      for( ; i < last_ind; i++) {
          buf->data[i] = 0 ;
       }
    }
@@ -1427,14 +1431,14 @@ int c_xdfins(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((last_ind + nbwords - 1) > buf->nwords) {
+    if ((last_ind + nbwords) > BUF_CAPACITY(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
 
     // Move buffer content nbwords to the right for insertion
     if (last_ind != index_word) {
-        for (i = last_ind; i >= index_word; i--) {
+        for (i = last_ind - 1; i >= index_word; i--) {
             buf->data[i + nbwords] = buf->data[i];
         }
     }
@@ -2414,7 +2418,7 @@ int c_xdfrep(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > BUF_CAPACITY(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for replacemen\n",__func__);
         return(ERR_BAD_DIM);
     }
-- 
2.43.0


From 7b2cfd47132416ac739b5680a20175f73796b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 043/205] fix: reading a record larger than the buffer is
 refused

---
 src/fstd98/xdf98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index ce60441..2e02263 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1148,7 +1148,7 @@ int c_xdfget2(
             }
         }
     }
-    if (lngw > (nw - RECADDR +1)) {
+    if (lngw > (nw - RECADDR - (int)(offsetof(buffer_interface, data) / sizeof(uint32_t)))) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: dimension of buf (%d) < record size (%d)\n",__func__,nw,lngw);
         return(ERR_BAD_DIM);
     }
-- 
2.43.0


From 579130ede9d1a73e84af556c3f301c816a77ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 044/205] fix: values that do not fill 64 bits were read and
 written past the caller's array

---
 src/fstd98/xdf98.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 2e02263..fbd45b8 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -668,6 +668,8 @@ int c_xdfadd(
 
     int nbwords = (nelm * nbits + 63) / 64;
     nbwords = W64TOWD(nbwords);
+    // Words actually provided by the caller, which may be one less
+    const int in_words = (nelm * nbits + 31) / 32;
 
     buffer_interface_ptr buf = (buffer_interface_ptr) buffer;
     int index_word = buf->nbits / (sizeof(uint32_t) * 8);
@@ -684,7 +686,7 @@ int c_xdfadd(
         case 6:
         case 8:
             for (int i = 0; i < nbwords; i++) {
-                buf->data[index_word+i] = donnees[i];
+                buf->data[index_word+i] = (i < in_words) ? donnees[i] : 0;
             }
             break;
 
@@ -705,7 +707,7 @@ int c_xdfadd(
         case 5:
             // Upper char only
             for (int i = 0; i < nbwords; i++) {
-                buf->data[index_word+i] = upper_case_word(donnees[i]);
+                buf->data[index_word+i] = (i < in_words) ? upper_case_word(donnees[i]) : 0;
             }
             break;
 
@@ -1426,6 +1428,8 @@ int c_xdfins(
 
     nbwords = (nelm * nbits + 63) / 64;
     nbwords = W64TOWD(nbwords);
+    // Words actually provided by the caller, which may be one less
+    const int in_words = (nelm * nbits + 31) / 32;
 
     index_word = buf->data_index + (bitpos / (sizeof(uint32_t) * 8));
 
@@ -1452,7 +1456,7 @@ int c_xdfins(
         case 6:
         case 8:
             for (i = 0; i < nbwords; i++) {
-                buf->data[index_word + i] = donnees[i];
+                buf->data[index_word + i] = (i < in_words) ? donnees[i] : 0;
             }
             break;
 
@@ -1473,7 +1477,7 @@ int c_xdfins(
         case 5:
             // Upper char only
             for (i = 0; i < nbwords; i++) {
-                buf->data[index_word+i] = upper_case_word(donnees[i]);
+                buf->data[index_word+i] = (i < in_words) ? upper_case_word(donnees[i]) : 0;
             }
             break;
 
@@ -2413,6 +2417,8 @@ int c_xdfrep(
 
     nbwords = (nelm * nbits + 63) / 64;
     nbwords = W64TOWD(nbwords);
+    // Words actually provided by the caller, which may be one less
+    const int in_words = (nelm * nbits + 31) / 32;
 
     index_word = buf->data_index + (bitpos / (sizeof(uint32_t) * 8));
 
@@ -2436,7 +2442,7 @@ int c_xdfrep(
         case 6:
         case 8:
             for (i=0; i < nbwords; i++) {
-                buf->data[index_word+i] = donnees[i];
+                buf->data[index_word+i] = (i < in_words) ? donnees[i] : 0;
             }
             break;
 
@@ -2458,7 +2464,7 @@ int c_xdfrep(
         case 5:
             // Upper char only
             for (i = 0; i < nbwords; i++) {
-                buf->data[index_word + i] = upper_case_word(donnees[i]);
+                buf->data[index_word + i] = (i < in_words) ? upper_case_word(donnees[i]) : 0;
             }
             break;
 
@@ -2865,6 +2871,8 @@ int c_xdfxtr(
 
     nbwords = (nelm * nbits + 63) / 64;
     nbwords = W64TOWD(nbwords);
+    // Words actually expected by the caller, which may be one less
+    const int out_words = (nelm * nbits + 31) / 32;
 
     index_word = buf->data_index + (bitpos / (sizeof(uint32_t) * 8));
 
@@ -2875,7 +2883,7 @@ int c_xdfxtr(
         case 5:
         case 6:
         case 8:
-            for (i = 0; i < nbwords; i++)
+            for (i = 0; i < out_words; i++)
                 donnees[i] = buf->data[index_word+i];
             break;
 
-- 
2.43.0


From 5c9a328874b7f3322f8da4469ab3e30ebc0d1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 045/205] fix: number of bits for transparent blocks and for
 the largest magnitudes

---
 src/fstd98/burp98.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 721aa79..01f5626 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -296,12 +296,12 @@ static int burp_nbit_datyp(
     int i, needed;
     int inbits = *nbits;
     int32_t *tblval = (int32_t *) tval;
-    int32_t temp;
-    int32_t tblmax;
-    int32_t tblmin;
+    int64_t temp;
+    int64_t tblmax;
+    int64_t tblmin;
 
     /* if transparent mode, nomodifications */
-    if (((*datyp==2) && (*nbits == 32)) || (datyp == 0)) return 0;
+    if (((*datyp==2) && (*nbits == 32)) || (*datyp == 0)) return 0;
 
     /* if datyp > 5 (real, real*8, complex, complex*8) nbits is set to 32 */
     if (*datyp > 5) {
@@ -339,7 +339,7 @@ static int burp_nbit_datyp(
         needed++;
         temp >>=1;
     }
-    if (tblmax == (~(-1 << needed))) needed++;
+    if (tblmax == ((INT64_C(1) << needed) - 1)) needed++;
 
     *nbits = needed;
     if (*datyp == 4) {
-- 
2.43.0


From 014b1e402c78d8543fd9c42ff3474fad9dd23eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 046/205] fix: block header initialized, elements not read
 beyond the list

---
 src/fstd98/burp98.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 01f5626..bfb9d8a 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -485,7 +485,7 @@ int c_mrbadd(
     uint32_t r_btyp, r_nbit, r_bit0, r_datyp;
 
     // initialize block header to 0
-    memset(&entete,sizeof(entete),0x0);
+    memset(&entete, 0x0, sizeof(entete));
 
     if (((datyp == 3) || (datyp == 5)) && (nbit != 8)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: nbits must be 8 for datyp 3 or 5\n",__func__);
@@ -536,9 +536,9 @@ int c_mrbadd(
         entete.nt = nt;
         entete.nele = nele;
         entete.nval = nval;
-        entete.elem1 = lstele[0];
-        entete.elem2 = lstele[1];
-        entete.elem3 = lstele[2];
+        if (nele > 0) entete.elem1 = lstele[0];
+        if (nele > 1) entete.elem2 = lstele[1];
+        if (nele > 2) entete.elem3 = lstele[2];
         done = 3;
     }
     indx = (buf->nbits) / (8 * sizeof(uint32_t));
-- 
2.43.0


From eaaa50b3919c4597cff6de98ee82507b8babbc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 047/205] fix: a block that cannot be added leaves the report
 as it was

---
 src/fstd98/burp98.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index bfb9d8a..1418330 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -480,7 +480,7 @@ int c_mrbadd(
     buffer_interface_ptr buf = (buffer_interface_ptr) buffer;
     uint32_t *pos;
     int inbit, idatyp, nombre, err, left, i, bits_added, bfamho;
-    int done,indx;
+    int done, indx, used, listed;
     uint32_t r_nele, r_nval, r_nt, r_bfam, r_bdesc;
     uint32_t r_btyp, r_nbit, r_bit0, r_datyp;
 
@@ -492,6 +492,11 @@ int c_mrbadd(
         return(ERR_BAD_DATYP);
     }
 
+    if ((datyp < 0) || (datyp == 1) || (datyp > 9)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid datyp=%d\n",__func__,datyp);
+        return(ERR_BAD_DATYP);
+    }
+
     // validate (possibly modify) nbit and datyp
     inbit = nbit;
     idatyp = datyp;
@@ -541,6 +546,14 @@ int c_mrbadd(
         if (nele > 2) entete.elem3 = lstele[2];
         done = 3;
     }
+    // Make sure that the whole block fits before modifying anything
+    c_mrblen(buf, &used, &left);
+    listed = (nele > done) ? nele - done : 0;
+    if (left < NBENTB + ((listed * 16 + 63) / 64 + (nombre * inbit + 63) / 64) * 64) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
+        return(ERR_BAD_DIM);
+    }
+
     indx = (buf->nbits) / (8 * sizeof(uint32_t));
     pos = (uint32_t *) &(buf->data[indx]);
 
-- 
2.43.0


From c7840246fba98be8e5bb89838348dd53538685a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 048/205] fix: a block that cannot be replaced leaves the
 report as it was

---
 src/fstd98/burp98.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 1418330..2519520 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -951,11 +951,7 @@ int c_mrbrep(
     err = burp_nbit_datyp(&new_nbit, &new_datyp, tblval, nombre, xdf_stride);
     if (err < 0) return err;
 
-    if (new_datyp != datyp)
-        block[blkno - 1].datyp = new_datyp;
-
     if (new_nbit != nbit) {
-        block[blkno - 1].nbit = new_nbit - 1;
         nmots = (nbit * nombre + 63) / 64;
         new_nmots = (new_nbit * nombre + 63) / 64;
         diff_nmots = new_nmots - nmots;
@@ -969,6 +965,9 @@ int c_mrbrep(
             }
         }
     }
+    block[blkno - 1].nbit = new_nbit - 1;
+    block[blkno - 1].datyp = new_datyp;
+
     /* replace block */
     err = c_xdfrep((uint32_t *)buf, tblval, bitpos, nombre, new_nbit, new_datyp);
     return err;
-- 
2.43.0


From bbf2ed9b7962b8bf8e3eb096f032b9df72e8e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 049/205] fix: mrbprml does not report blocks beyond the last
 one

---
 src/burp98_f/mrbprml.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/burp98_f/mrbprml.F90 b/src/burp98_f/mrbprml.F90
index 7b06621..aee3336 100644
--- a/src/burp98_f/mrbprml.F90
+++ b/src/burp98_f/mrbprml.F90
@@ -83,7 +83,7 @@ integer function mrbprml(buf, inbkno, tblprm, nprm, inblocs)
     bkno = MAX(inbkno, 0)
 
     !  NOMBRE DE BLOCS A EXTRAIRE
-    nblocs = MIN(inblocs, getbuf8(buf))
+    nblocs = MAX(0, MIN(inblocs, getbuf8(buf) - bkno))
 
     ! EXTRAIRE TOUTES LES ENTETES DE BLOCS
     DO nobl = 1, nblocs
-- 
2.43.0


From d838d70ed61611f9f886fb8aa6ad0636303eee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:19 +0000
Subject: [PATCH 050/205] fix: elements added by the user to the BURP
 conversion table can be found

---
 src/burp98_f/mrbcvt.F90 | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/burp98_f/mrbcvt.F90 b/src/burp98_f/mrbcvt.F90
index 84c2f70..63bb0d0 100644
--- a/src/burp98_f/mrbcvt.F90
+++ b/src/burp98_f/mrbcvt.F90
@@ -171,16 +171,33 @@
           PREMIER = .FALSE.
       ENDIF
 
-!     AJOUTER LE TABLEAU DE L'USAGER A LA FIN DU TABLEAU STANDARD
-!     APRES L'AVOIR TRIE
+!     AJOUTER LE TABLEAU DE L'USAGER AU TABLEAU STANDARD, UN ELEMENT
+!     DEJA DEFINI ETANT REMPLACE
       CALL QBRPTRI(TBLUSR, 3, NELEUSR)
 
       DO 70 J = 1, NELEUSR
-         NELELU = NELELU + 1
+         K = 0
+         DO 55 I = 1, NELELU
+            IF(TABLEAU(1,I) .EQ. TBLUSR(1,J)) K = I
+55          CONTINUE
+         IF(K .EQ. 0) THEN
+            IF(NELELU .GE. MAXNELE) THEN
+               write(app_msg,*) 'MRBSCT: Le tableau de conversion est plein'
+               call Lib_Log(APP_LIBFST,APP_ERROR,app_msg)
+               MRBSCT = ERBTAB
+               EXIT
+            ENDIF
+            NELELU = NELELU + 1
+            K = NELELU
+         ENDIF
          DO 60 I = 1, 3
-             TABLEAU(I,NELELU) = TBLUSR(I,J)
+             TABLEAU(I,K) = TBLUSR(I,J)
 60           CONTINUE
 70       CONTINUE
+
+!     LA RECHERCHE BINAIRE EXIGE QUE LE TOUT SOIT TRIE
+      CALL QBRPTRI(TABLEAU, 3, NELELU)
+      IF (MRBSCT .EQ. ERBTAB) RETURN
       MRBSCT = 0
 
       RETURN
-- 
2.43.0


From 02845a5a3558d5bfc6926a6843d6023a9933bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 051/205] fix: a missing value in the first element of a field
 reads back as missing

---
 src/fstd98/fst_missing.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 8eecee0..2c4e4d5 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -745,7 +745,7 @@ static void fst_float_decode_missing(
     float max, min;
     fld_float_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = float_missing_val;
         }
@@ -763,7 +763,7 @@ static void fst_double_decode_missing(
     double max, min;
     fld_double_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = double_missing_val;
         }
@@ -781,7 +781,7 @@ static void fst_int_decode_missing(
     int max, min;
     fld_int_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = int_missing_val;
         }
@@ -799,7 +799,7 @@ static void fst_short_decode_missing(
     short max, min;
     fld_short_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = short_missing_val;
         }
@@ -817,7 +817,7 @@ static void fst_byte_decode_missing(
     char max, min;
     fld_byte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = byte_missing_val;
         }
@@ -835,7 +835,7 @@ static void fst_uint_decode_missing(
     unsigned int max, min;
     fld_uint_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = uint_missing_val;
         }
@@ -853,7 +853,7 @@ static void fst_ushort_decode_missing(
     unsigned short max, min;
     fld_ushort_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ushort_missing_val;
         }
@@ -871,7 +871,7 @@ static void fst_ubyte_decode_missing(
     unsigned char max, min;
     fld_ubyte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ubyte_missing_val;
         }
-- 
2.43.0


From 24094f8b94f4942a53cbb873cbc4b08406ad5d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 052/205] fix: missing values of a constant negative or
 entirely missing field are encoded above the field

---
 src/fstd98/fst_missing.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 2c4e4d5..0339295 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -910,7 +910,8 @@ static int fst_double_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        // (max is not a value of the field when every element is missing)
+        plug = (max == 0.0 || missing == nElems) ? 1.0 : (max > 0.0) ? max * 2.0 : 0.0;
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == double_missing_val) {
@@ -949,7 +950,8 @@ static int fst_float_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        // (max is not a value of the field when every element is missing)
+        plug = (max == 0.0 || missing == nElems) ? 1.0 : (max > 0.0) ? max * 2.0 : 0.0;
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == float_missing_val) {
-- 
2.43.0


From cef3a4b4c4c28b4dbe8f6c1cce64d4b8a7b2c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 053/205] fix: missing values of signed 8 and 16 bit fields are
 encoded above the field

---
 src/fstd98/fst_missing.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 0339295..b5bdce8 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -1038,12 +1038,11 @@ static int fst_short_encode_missing(
     int missing = fld_short_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    short plug2 = 0xFFFF;
+    // largest positive number using nbits bits
+    short plug2 = 0x7FFF;
     if (nbits < 16) {
         plug2 = plug2 >> (16 - nbits);
     }
-    // largest positive number using nbits bits
-    plug2 = plug2 >> 1;
 
     // this code assumes packing of z with no bias removal
     short plug = plug2;
@@ -1099,12 +1098,11 @@ static int fst_byte_encode_missing(
     int missing = fld_byte_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    char plug2 = 0xFF;
+    // largest positive number using nbits bits
+    char plug2 = 0x7F;
     if (nbits < 8) {
         plug2 = plug2 >> (8 - nbits);
     }
-    // largest positive number using nbits bits
-    plug2 = plug2 >> 1;
 
     // this code assumes packing of z with no bias removal
     char plug = plug2;
-- 
2.43.0


From dfbcc70db54300096276f06f35919f4b8aa7d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 054/205] fix: unsigned bytes written with less than 8 bits are
 read with the same number of bits

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index dd714b8..be15d92 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2322,7 +2322,7 @@ int c_fstluk(
                             // printf("Debug+ fstluk xdf_byte armn_compress nbytes=%d nelm=%d\n", nbytes, nelm);
                             memcpy_16_8((int8_t *)field, (int16_t *)(buf->data + offset), nelm);
                         } else {
-                            ier = compact_char(field, (void *) NULL, buf->data, nelm, 8, 0, xdf_stride, 10);
+                            ier = compact_char(field, (void *) NULL, buf->data, nelm, stdf_entry.nbits, 0, xdf_stride, 10);
                         }
                     } else {
                         if (stdf_entry.datyp > 128) {
-- 
2.43.0


From 56a8a24d2541e64a2b475a687f22280c10260849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 055/205] fix: compressed unsigned integers are not sign
 extended

---
 src/fstd98/fstd98.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index be15d92..45bc4ae 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -113,7 +113,7 @@ static void str_cp_init(char * const dst, const int dstLen, const char * const s
 }
 
 
-static void memcpy_8_16(int16_t *p16, int8_t *p8, int nb) {
+static void memcpy_8_16(int16_t *p16, uint8_t *p8, int nb) {
     for (int i = 0; i < nb; i++) {
         *p16++ = *p8++;
     }
@@ -127,8 +127,8 @@ static void memcpy_16_8(int8_t *p8, int16_t *p16, int nb) {
 }
 
 
-static void memcpy_16_32(int32_t *p32, int16_t *p16, int nbits, int nb) {
-    int16_t mask = ~ (-1 << nbits);
+static void memcpy_16_32(uint32_t *p32, uint16_t *p16, int nbits, int nb) {
+    uint16_t mask = ~ (-1 << nbits);
     for (int i = 0; i < nb; i++) {
         *p32++ = *p16++ & mask;
     }
@@ -1202,7 +1202,7 @@ int c_fstecr(
                         } else if (xdf_byte) {
                             stdf_entry->nbits = Min(8, nbits);
                             nbits = stdf_entry->nbits;
-                            memcpy_8_16((int16_t *)&(buffer->data[keys_len+offset]), (int8_t *)field, ni * nj * nk);
+                            memcpy_8_16((int16_t *)&(buffer->data[keys_len+offset]), (uint8_t *)field, ni * nj * nk);
                         } else {
                             memcpy_32_16((short *)&(buffer->data[keys_len+offset]), field, nbits, ni * nj * nk);
                         }
@@ -2330,7 +2330,7 @@ int c_fstluk(
                             int nbytes = armn_compress((unsigned char *)(buf->data + offset), *ni, *nj, *nk, stdf_entry.nbits, 2);
                             c_armn_compress_setswap(1);
                             // printf("Debug+ fstluk mode int compress nbytes=%d\n", nbytes);
-                            memcpy_16_32(field, (int16_t *)(buf->data + offset), stdf_entry.nbits, nelm);
+                            memcpy_16_32(field, (uint16_t *)(buf->data + offset), stdf_entry.nbits, nelm);
                         } else {
                             ier = compact_integer(field, (void *) NULL, buf->data + offset, nelm, stdf_entry.nbits, 0, xdf_stride, 2);
                         }
-- 
2.43.0


From 0797b4a61c03c50ff9569444d1f1aecd4b436c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 056/205] fix: an unsigned integer field that cannot be
 compressed is written where it is read

---
 src/fstd98/fstd98.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 45bc4ae..1d2d924 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1210,9 +1210,17 @@ int c_fstecr(
                         int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+offset]), ni, nj, nk, nbits, 1);
                         c_armn_compress_setswap(1);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 2;
-                            compact_integer(field, (void *) NULL, &(buffer->data[keys_len+offset]),
-                                ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            stdf_entry->datyp = is_missing | 2;
+                            if (xdf_short) {
+                                compact_short(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 5);
+                            } else if (xdf_byte) {
+                                compact_char(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 9);
+                            } else {
+                                compact_integer(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            }
                         } else {
                             int nbytes = 4 + compressed_lng;
                             // fprintf(stderr, "Debug+ fstecr armn_compress compressed_lng=%d\n", compressed_lng);
-- 
2.43.0


From ab711e0743c3c25b47c8fb1ad4f20669afdef1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 057/205] fix: a field that cannot be compressed keeps its
 missing value flag

---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1d2d924..2a5880f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1171,7 +1171,7 @@ int c_fstecr(
                         ni * nj * nk, nbits + 64 * Max(16, nbits), 0, xdf_stride, 1, 0, &tempfloat);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+5]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 1;
+                        stdf_entry->datyp = is_missing | 1;
                         packfunc(field, &(buffer->data[keys_len]), &(buffer->data[keys_len+3]),
                             ni * nj * nk, nbits, 24, xdf_stride, 1, 0, &tempfloat);
                     } else {
@@ -1316,7 +1316,7 @@ int c_fstecr(
                         /* use an additionnal compression scheme */
                         int compressed_lng = c_armn_compress32((unsigned char *)&(buffer->data[keys_len+1]), (float *)field, ni, nj, nk, nbits);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 5;
+                            stdf_entry->datyp = is_missing | 5;
                             f77name(ieeepak)(field, &(buffer->data[keys_len]), &f_ni, &f_njnk, &f_minus_nbits,
                                 &f_zero, &f_one);
                         } else {
@@ -1342,7 +1342,7 @@ int c_fstecr(
                     c_float_packer((float *)field, nbits, &(buffer->data[keys_len+1]), &(buffer->data[keys_len+1+header_size]), ni * nj * nk);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+1+header_size]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 6;
+                        stdf_entry->datyp = is_missing | 6;
                         c_float_packer((float *)field, nbits, &(buffer->data[keys_len]), &(buffer->data[keys_len+header_size]), ni * nj * nk);
                     } else {
                         int nbytes = 16 + (header_size*4) + compressed_lng;
-- 
2.43.0


From 02f8f29c4828c933d584648d224185ec29c4dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 058/205] fix: all the levels of a character field are written

---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 2a5880f..31b74eb 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1118,7 +1118,7 @@ int c_fstecr(
                 lngw = ni * nj * nk * nbits;
             }
             if (datyp == 1) lngw += 120;
-            if (datyp == 3) lngw = ni * nj * 8;
+            if (datyp == 3) lngw = ni * nj * nk * 8;
             lngw = (lngw + bitmot - 1) / bitmot;
             for (int i = 0; i < lngw; i++) {
                 buffer->data[keys_len+i] = field[i];
@@ -1252,7 +1252,7 @@ int c_fstecr(
             case 3: case 131:
                 /* character */
                 {
-                    int nc = (ni * nj + 3) / 4;
+                    int nc = (ni * nj * nk + 3) / 4;
                     if (datyp == 131) {
                         Lib_Log(APP_LIBFST,APP_WARNING,"%s: extra compression not available, data type %d reset to %d\n",__func__,stdf_entry->datyp,3);
                         datyp = 3;
@@ -2267,7 +2267,7 @@ int c_fstluk(
         } else {
             int lngw = nelm * stdf_entry.nbits;
             if (stdf_entry.datyp == 1) lngw += 120;
-            if (stdf_entry.datyp == 3) lngw = *ni * *nj * 8;
+            if (stdf_entry.datyp == 3) lngw = nelm * 8;
             if (stdf_entry.datyp == 6) {
                 c_float_packer_params(&header_size, &stream_size, &p1out, &p2out, nelm);
                 lngw = (header_size + stream_size) * 8;
-- 
2.43.0


From bbb8465f81ab13c5b1c431ac38caa194f01e4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 059/205] fix: complex records are copied whole in image mode

---
 src/fstd98/fstd98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 31b74eb..f1d84be 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1118,6 +1118,7 @@ int c_fstecr(
                 lngw = ni * nj * nk * nbits;
             }
             if (datyp == 1) lngw += 120;
+            if (datyp == 8) lngw *= 2;
             if (datyp == 3) lngw = ni * nj * nk * 8;
             lngw = (lngw + bitmot - 1) / bitmot;
             for (int i = 0; i < lngw; i++) {
-- 
2.43.0


From 531a3228fd60dd3dec56598cf979e107cbf003ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 060/205] fix: fields of several levels are not compressed,
 only their first level was kept

---
 src/compresseur/c_zfstlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compresseur/c_zfstlib.c b/src/compresseur/c_zfstlib.c
index 1f8031e..ef1cbfb 100644
--- a/src/compresseur/c_zfstlib.c
+++ b/src/compresseur/c_zfstlib.c
@@ -107,8 +107,8 @@ int armn_compress(
 
     switch (op_code) {
         case COMPRESS:
-            if (nbits > 16 || ni == 1 || nj == 1) {
-                Lib_Log(APP_LIBFST,APP_WARNING,"%f: Cannot compress if nbits>16 or ni=1 or nj=1. Returning original field\n",__func__);
+            if (nbits > 16 || ni == 1 || nj == 1 || nk > 1) {
+                Lib_Log(APP_LIBFST,APP_WARNING,"%s: Cannot compress if nbits>16 or ni=1 or nj=1 or nk>1. Returning original field\n",__func__);
                 return -1;
             }
 
-- 
2.43.0


From 960ce2037ce8c899c517e55a0e81392cf2f26ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 061/205] fix: tokens packed in wider slots are read with the
 width of the slots

---
 src/packers/compact.tmplc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f3a74c9..f5b3f9a 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -355,7 +355,9 @@ void *compact_FLOAT_TYPE(
         }
 
         tokenSize = theHeader->bitSize;
-        EffectivePackedTokenSize = tokenSize;
+        if (packedTokenBitSize <= 64) {
+            EffectivePackedTokenSize = tokenSize;
+        }
         if ( tokenSize != wordSize ) {
             missingToken = ~(-1 << tokenSize);
         } else {
-- 
2.43.0


From 2d2ea2d34b530bb69ac6ab047840c15f6b633cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 062/205] fix: missing values remain distinct from the largest
 value when packed with 1 to 3 bits

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index b5bdce8..97d604f 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -893,7 +893,7 @@ static int fst_double_encode_missing(
 ) {
     if (missing_value_used() == 0) return 0;
 
-    const float factor[9] = { 2.0, 1.1, 0.55, 0.28, 0.14, 0.07, 0.035, 0.017, 0.01 };
+    const float factor[9] = { 2.0, 3.1, 0.7, 0.3, 0.14, 0.07, 0.035, 0.017, 0.01 };
 
     double max, min;
     int missing = fld_double_anal(src, nElems, &max, &min);
@@ -933,7 +933,7 @@ static int fst_float_encode_missing(
 ) {
     if (missing_value_used() == 0) return 0;
 
-    const float factor[9] = { 2.0, 1.1, 0.55, 0.28, 0.14, 0.07, 0.035, 0.017, 0.01 };
+    const float factor[9] = { 2.0, 3.1, 0.7, 0.3, 0.14, 0.07, 0.035, 0.017, 0.01 };
 
     float max, min;
     int missing = fld_float_anal(src, nElems, &max, &min);
-- 
2.43.0


From b87824fc339c58786ca79a44f87aebe2283a4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 063/205] fix: IEEE fields of several levels, or of less than
 10 bits, are not compressed

---
 src/compresseur/armn_compress_32.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compresseur/armn_compress_32.c b/src/compresseur/armn_compress_32.c
index 2aa6403..190756c 100644
--- a/src/compresseur/armn_compress_32.c
+++ b/src/compresseur/armn_compress_32.c
@@ -88,6 +88,16 @@ int c_armn_compress32(
         return zlng;
     }
 
+    if (nk > 1) {
+        Lib_Log(APP_LIBFST,APP_WARNING,"%s: Fields of more than one level are left uncompressed\n",__func__);
+        return -1;
+    }
+
+    if (znbits < 10 || znbits > 32) {
+        Lib_Log(APP_LIBFST,APP_WARNING,"%s: Fields of %d bits are left uncompressed\n",__func__,znbits);
+        return -1;
+    }
+
     nbits = znbits - 9;
     memset(&zfstzip, 0, sizeof(_fstzip));
 
-- 
2.43.0


From 48fe1c0e4b70db5af099f7565c146a2ce4a2c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 064/205] fix: the compression of IEEE fields stays within the
 space of the uncompressed field

---
 src/compresseur/armn_compress_32.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/compresseur/armn_compress_32.c b/src/compresseur/armn_compress_32.c
index 190756c..d32540e 100644
--- a/src/compresseur/armn_compress_32.c
+++ b/src/compresseur/armn_compress_32.c
@@ -116,7 +116,7 @@ int c_armn_compress32(
     zsigne = (unsigned char *) malloc(2 * npts * sizeof(unsigned char));
     exposant = (unsigned char *) malloc(2 * npts * sizeof(unsigned char));
     exposant2 = (unsigned char *) malloc(2 * npts * sizeof(unsigned char));
-    zexposant = (unsigned int *) malloc(npts * sizeof(unsigned int));
+    zexposant = (unsigned int *) malloc(2 * npts * sizeof(unsigned int));
     mantisse = (unsigned int *) malloc(2 * npts * sizeof(unsigned int));
     zmantisse = (unsigned int *) malloc(2 * npts * sizeof(unsigned int));
     le_signe_or = 0;
@@ -210,12 +210,20 @@ int c_armn_compress32(
     } else {
         code_exposant = DIFF_EXPOSANT_PACKED;
         le_pointeur += sizeof(unsigned int);
-        packTokensParallelogram_8((unsigned int *)le_pointeur, &lng_exposant, exposant2, ni, nj, nbits_needed, 3);
+        packTokensParallelogram_8(zexposant, &lng_exposant, exposant2, ni, nj, nbits_needed, 3);
         if (lng_exposant > (unsigned int) ni * nj) {
             zlng = -1;
             Lib_Log(APP_LIBFST,APP_WARNING,"%s: Exponent range too large, original field left uncompressed",__func__);
+            free(signe);
+            free(zsigne);
+            free(exposant);
+            free(exposant2);
+            free(zexposant);
+            free(mantisse);
+            free(zmantisse);
             return zlng;
         }
+        memcpy(le_pointeur, zexposant, lng_exposant);
 
         if (0 != (lng_exposant % 4)) {
             lng_exposant += 4 - (lng_exposant % 4);
@@ -511,6 +519,11 @@ void packTokensParallelogram32(
 
     lastWordShifted = 0;
     spaceInLastWord = 32;
+    if (remaining_space < 3 + (ni + nj) * nbits / 32) {
+        *zlng = 0;
+        free(ufld_dst);
+        return;
+    }
     *cur = 0;
 
     stuff(nbits_req_container, cur, 32, istep, lastWordShifted, spaceInLastWord);
@@ -528,6 +541,11 @@ void packTokensParallelogram32(
     for (unsigned int j = 2; j <= nj; j += istep) {
         lcl_n = ((j + istep - 1) >= nj ? nj - j : istep - 1);
         for (unsigned int i = 2; i <= ni; i += istep) {
+            if (remaining_space < (cur - z) + 3) {
+                *zlng = 0;
+                free(ufld_dst);
+                return;
+            }
             k = FTN2C(i, j, ni);
             local_max = ufld_dst[k];
             lcl_m = ((i + istep - 1) >= ni ? ni - i : istep - 1);
@@ -559,6 +577,7 @@ void packTokensParallelogram32(
                     }
                     if (remaining_space < ((cur - z) + (1 + ((nbits_needed + 9 * nbits) >> 5)))) {
                         *zlng = 0;
+                        free(ufld_dst);
                         return;
                     }
                     break;
-- 
2.43.0


From 8ef3d2551b3fd22bb3e7cf70b4194a61a05b2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 065/205] fix: character records are described with the 8 bits
 they are stored with

---
 src/fstd98/fstd98.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index f1d84be..1a228ec 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -930,6 +930,12 @@ int c_fstecr(
         }
     }
 
+    /* characters are always stored with 8 bits */
+    if (! image_mode_copy && (((datyp & 0x3F) == 3) || ((datyp & 0x3F) == 7))) {
+        nbits = 8;
+        minus_nbits = -8;
+    }
+
     /* no extra compression if nbits > 16 */
     if ((nbits > 16) && (datyp != 133)) datyp &= 0x7F;
     /*  if ((datyp < 128) && (extra_compression > 0) && (nbits <= 16)) datyp += extra_compression; */
-- 
2.43.0


From 93cffdf96f6f900e2f3ddc1a4ae094c33a3ae760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 066/205] fix: the scratch space of the compressor has room for
 the header of tiny fields

---
 src/compresseur/c_zfstlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compresseur/c_zfstlib.c b/src/compresseur/c_zfstlib.c
index ef1cbfb..29abffd 100644
--- a/src/compresseur/c_zfstlib.c
+++ b/src/compresseur/c_zfstlib.c
@@ -113,8 +113,8 @@ int armn_compress(
             }
 
             us_fld = (unsigned int *) fld;
-            zfld_minimum = (unsigned int *) malloc(sizeof(unsigned int) * ni * nj * nk);
-            zfld_lle     = (unsigned int *) malloc(sizeof(unsigned int) * ni * nj * nk);
+            zfld_minimum = (unsigned int *) malloc(sizeof(unsigned int) * (ni * nj * nk + 16));
+            zfld_lle     = (unsigned int *) malloc(sizeof(unsigned int) * (ni * nj * nk + 16));
 
 #if defined (Little_Endian)
             if (swapStream == 1) {
-- 
2.43.0


From 42ad248bfb34b76ce149aedfca66fe26f8be8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 067/205] fix: the work space used to read a small compressed
 field holds the whole record

---
 src/fstd98/fstd98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1a228ec..f4e8557 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2220,6 +2220,8 @@ int c_fstluk(
         lng2 = lng;
 
     }
+    // The whole record has to fit
+    if (lng2 < lng) lng2 = lng;
 
     // printf("Debug+ fstluk lng2 = %d\n", lng2);
 
-- 
2.43.0


From da0983d5b41c989686bbc84096d8284275e3a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 068/205] fix: zeros of a field of very small values are packed
 as zeros

---
 src/packers/float_packer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packers/float_packer.c b/src/packers/float_packer.c
index 49a9605..d47fbec 100644
--- a/src/packers/float_packer.c
+++ b/src/packers/float_packer.c
@@ -188,6 +188,7 @@ int32_t float_packer_1(float *source, int32_t nbits, int32_t *header, int32_t *s
     Shift  = MaxExp - Exp;
     if (Shift > 31) Shift = 31;
     Mantis = Mantis >> Shift;
+    if (Exp < 1) Mantis = 0;
     if( Src >> 31 ) Mantis = - Mantis;
     Mantis = Mantis - Minimum;              /* subtract minimum from mantissa */
     Mantis = Mantis + Round;                /* add rounding term */
-- 
2.43.0


From dad4574abde296188b75282efbc1673047fdb649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 069/205] fix: a hole left by a word-addressable write is
 filled with zeros

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index f3d5c80..72063ff 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -941,7 +941,7 @@ int c_wawrit2(
     }
     if ( offset > FGFDT[entry].file_size + 1 ) {
         uint32_t scrap[WA_HOLE];
-        memset(scrap, 0, WA_HOLE);
+        memset(scrap, 0, sizeof(scrap));
         qqcwawr(scrap, FGFDT[entry].file_size + 1, offset - FGFDT[entry].file_size, entry);
     }
     uint32_t * const bufswap = (uint32_t *) buf;
-- 
2.43.0


From a33cf528b3775ee36e105969862f77ac029c09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 070/205] fix: reading two words past the end of a
 word-addressable file reads nothing

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 72063ff..e88db8e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1028,7 +1028,7 @@ int c_waread2(
     if ( offset + lnwords - 1 > FGFDT[entry].eff_file_size ) {
         lnwords -= (offset + lnwords - 1 - FGFDT[entry].eff_file_size);
     }
-    if ( lnwords == 0 ) return 0;
+    if ( lnwords <= 0 ) return 0;
     qqcward((uint32_t *)buf, offset, lnwords, entry);
     if (*little_endian) swap_buffer_endianness(bufswap, lnwords);
     return lnwords;
-- 
2.43.0


From 5c8832238265ef8b2a126dca3054ca9248058fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 071/205] fix: the last word of a word-addressable page belongs
 to that page

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e88db8e..02fe236 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2043,7 +2043,7 @@ static void wa_page_read(
         // Obtenir une nouvelle page
         get_new_page(fileIdx);
         pageIdx = wafile[fileIdx].nb_page_in_use - 1;
-        int wa0 = adr - (adr % WA_PAGE_SIZE) + 1;
+        int wa0 = adr - ((adr - 1) % WA_PAGE_SIZE);
         wafile[fileIdx].page[pageIdx].wa0 = (wa0 > 1) ? wa0 : 1;
         wafile[fileIdx].page[pageIdx].access_count++;
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
@@ -2155,7 +2155,7 @@ static void wa_page_write(
         get_new_page(ind);
         pageIdx = wafile[ind].nb_page_in_use - 1;
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
-        int wa0 = offset - (offset % WA_PAGE_SIZE) + 1;
+        int wa0 = offset - ((offset - 1) % WA_PAGE_SIZE);
         wafile[ind].page[pageIdx].wa0 = (wa0 > 1) ? wa0 : 1;
         wafile[ind].page[pageIdx].access_count++;
 
-- 
2.43.0


From a6bfaee3c0108b04bc3f27e2d107ed4d9ee55c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 072/205] fix: a page is read before a write that leaves its
 last word

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 02fe236..edd3272 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2164,7 +2164,7 @@ static void wa_page_write(
         // a la fin de fichier ou plus, alors il faut relire la page en question
         if ((offset > wafile[ind].page[pageIdx].wa0) ||
             ((offset + nmots != wafile[ind].page[pageIdx].wa0 + WA_PAGE_SIZE) &&
-            (offset + nmots < FGFDT[indf].file_size))) {
+            (offset + nmots <= FGFDT[indf].file_size))) {
 
             wseek(fd, wafile[ind].page[pageIdx].wa0 - 1, SEEK_SET);
             int readbytes;
-- 
2.43.0


From d0d79d41d4c68a8a885892a24637eca70cef7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 073/205] fix: page descriptors that overlap are moved, not
 copied

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index edd3272..ad2cfcf 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1646,7 +1646,7 @@ static void scrap_page(
     wafile[fl0].nb_page_in_use--;
     free_list[++nfree] = wafile[fl0].page[pg0].page_adr;
     if (pg0 != wafile[fl0].nb_page_in_use) {
-        memcpy(&wafile[fl0].page[pg0], &wafile[fl0].page[pg0+1], sizeof(PAGEINFO) * (wafile[fl0].nb_page_in_use - pg0));
+        memmove(&wafile[fl0].page[pg0], &wafile[fl0].page[pg0+1], sizeof(PAGEINFO) * (wafile[fl0].nb_page_in_use - pg0));
     }
     pg0 = wafile[fl0].nb_page_in_use;
     wafile[fl0].page[pg0].wa0 = 0;
-- 
2.43.0


From 9a6112e45bd9fec43a32761f44adec490dde976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 074/205] fix: fclos on an open word-addressable file writes
 its pages and frees its table entry

---
 src/primitives/c_baseio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index ad2cfcf..b39499a 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -73,6 +73,7 @@ static int c_qqqfscr(const char * const type);
 static int fnom_rem_connect( const int ind, const char * const remote_host);
 static void wa_pages_flush(const int fileIdx);
 static int qqcopen(const int indf);
+static int qqcclos(const int indf);
 static void qqcwawr(const uint32_t * const buf, const unsigned int wadr, const int nwords, const int indf);
 static void qqcward(uint32_t * const buf, const unsigned int woffset, const int lnmots, const int indf);
 static void arrayZero(uint32_t * const dest, const int nwords);
@@ -647,7 +648,7 @@ int c_fclos(
             int32_t iun77 = iun;
             ier = f77name(ftnclos)(&iun77);
         } else {
-            ier = close(FGFDT[entry].fd);
+            ier = qqcclos(entry);
         }
     }
 
-- 
2.43.0


From 1681b71b8259519d040ab5308e2ae2346bb4b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 075/205] fix: the direct access status table is not read past
 its end

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index b39499a..58c633e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1242,7 +1242,7 @@ void c_readda(
        pt++;
     }
 
-    if ( pt <= &dastat[MAXWAFILES] ) {
+    if ( pt < &dastat[MAXWAFILES] ) {
         if (*pt == iun) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: consecutive calls to readda without call to checda, iun=%d\n",__func__,iun);
             return;
@@ -1289,7 +1289,7 @@ void c_writda(
     while (pt < &dastat[MAXWAFILES] && *pt != iun) {
         pt++;
     }
-    if ( pt <= &dastat[MAXWAFILES] ) {
+    if ( pt < &dastat[MAXWAFILES] ) {
         if (*pt == iun) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: consecutive calls to writda without call to checda, iun=%d\n",__func__,iun);
             return;
-- 
2.43.0


From ede8479cb62cdbcef00338327be6ced62567aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:14 +0000
Subject: [PATCH 076/205] fix: a read with several pages in use is not taken
 for overlapping pages

---
 src/primitives/c_baseio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 58c633e..baad768 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2080,9 +2080,9 @@ static void wa_page_read(
     for (int j = 0; j < wafile[fileIdx].nb_page_in_use; j++) {
         for (int i = 0; i < wafile[fileIdx].nb_page_in_use; i++) {
             if (j != i) {
-                if ((wafile[fileIdx].page[j].wa0 >= wafile[fileIdx].page[pageIdx].wa0) &&
-                    (wafile[fileIdx].page[j].wa0 <= wafile[fileIdx].page[pageIdx].wa0 + WA_PAGE_SIZE - 1)) {
-                    Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d, page[j].wa0=%d, page[i].wa0=%d, page[i].wa0+WA_PAGE_SIZE=%d\n",__func__,i,wafile[fileIdx].page[j].wa0,wafile[fileIdx].page[pageIdx].wa0,wafile[fileIdx].page[pageIdx].wa0+WA_PAGE_SIZE-1);
+                if ((wafile[fileIdx].page[j].wa0 >= wafile[fileIdx].page[i].wa0) &&
+                    (wafile[fileIdx].page[j].wa0 <= wafile[fileIdx].page[i].wa0 + WA_PAGE_SIZE - 1)) {
+                    Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d, page[j].wa0=%d, page[i].wa0=%d, page[i].wa0+WA_PAGE_SIZE=%d\n",__func__,i,wafile[fileIdx].page[j].wa0,wafile[fileIdx].page[i].wa0,wafile[fileIdx].page[i].wa0+WA_PAGE_SIZE-1);
                     f77name(tracebck)();
                     exit(1);
                 }
-- 
2.43.0


From 5556839105846ea4661fda36fc6222190c11d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 077/205] fix: the rest of a short write is taken from where
 the write stopped

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index baad768..d77103f 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2297,7 +2297,7 @@ static void qqcwawr(
                 }
                 if (nwritten >= 0) {
                     int togo = (nwords * sizeof(uint32_t)) - nwritten;
-                    nwritten = write(lfd, buf, togo);
+                    nwritten = write(lfd, (const char *)buf + nwritten, togo);
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: multiple write attempt of file %s last write=%d bytes, total needed=%ld bytes\n",__func__,FGFDT[indf].file_name,togo,nwords*sizeof(uint32_t));
                     if (nwritten != togo) {
                         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
-- 
2.43.0


From e38ff1c79292efcb8334d6d3a224e6eaa7e1f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 078/205] fix: words read from or written to a stream in
 several pieces are kept in order and counted

---
 src/primitives/c_baseio.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index d77103f..d8e9e94 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1475,12 +1475,13 @@ int c_sqgetw(
     int fd = c_getfdsc(iun);
     if (fd <= 0) return fd;
 
-    uint32_t *pbuf = buf;
+    char *pbuf = (char *) buf;
     while (alire && (nlu > 0)) {
         nlu = read(fd, pbuf, alire);
+        if (nlu < 0) return -1;
         alire -= nlu;
         alu += nlu;
-        pbuf += (nlu / sizeof(uint32_t));
+        pbuf += nlu;
     }
     return (alire == 0) ? alu / sizeof(uint32_t) : -1;
 }
@@ -1510,14 +1511,15 @@ int c_sqputw(
     int fd = c_getfdsc(iun);
     if (fd <= 0) return fd;
 
-    const uint32_t *pbuf = buf;
+    const char *pbuf = (const char *) buf;
     while (aecrire && (necrit > 0)) {
         necrit = write(fd, pbuf, aecrire);
+        if (necrit < 0) return -1;
         aecrire -= necrit;
         aecrit += necrit;
-        pbuf += (necrit / sizeof(uint32_t));
+        pbuf += necrit;
     }
-    return (aecrire == 0) ? necrit / sizeof(uint32_t) : -1;
+    return (aecrire == 0) ? aecrit / sizeof(uint32_t) : -1;
 }
 
 
-- 
2.43.0


From a5ac002c56f1643c2922542b66030405e6c43b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 079/205] fix: the name of a stream is not moved before being
 freed

---
 src/primitives/c_baseio.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index d8e9e94..52b2d1d 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1372,7 +1372,6 @@ void c_sqopen(
             if ((FGFDT[entry].file_name[1] == '0') || (FGFDT[entry].file_name[1] == '1')) {
                 sscanf(&(FGFDT[entry].file_name[1]), "%d", &(FGFDT[entry].fd));
             } else {
-                FGFDT[entry].file_name++;
                 c_waopen(iun);
             }
         }
-- 
2.43.0


From 59b0cf80dd2205c400a459fedcdda31c9583cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 080/205] fix: a unit refused by fnom for its name is released

---
 src/primitives/c_baseio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 52b2d1d..2b9533f 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -443,6 +443,7 @@ int c_fnom(
     if (FGFDT[entry].attr.scratch) {
         if (strstr(lnom, "/")) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: / is illegal in scratch file name, specified name was %s\n",__func__,lnom);
+            c_fclos(liun);
             return -1;
         }
         int pid = getpid();
@@ -535,6 +536,7 @@ int c_fnom(
 
                 if (access(filename, F_OK)  == -1) {
                     /* not under ARMNLIB either */
+                    c_fclos(liun);
                     return -1;
                 }
             }
-- 
2.43.0


From 26ff96da2ea8ffc025fc92232cdc7cb29255e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 081/205] fix: an archive without the member asked for is
 closed

---
 src/primitives/c_baseio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 2b9533f..62c1387 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1926,6 +1926,10 @@ static int qqcopen(
         FGFDT[indf].fd = fd;
         if ((wafile[ind].offset = filepos(indf)) <= 0) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: subfile %s not found in %s\n",__func__, FGFDT[indf].subname,FGFDT[indf].file_name);
+            close(fd);
+            wafile[ind].file_desc = -1;
+            wafile[ind].offset = 0;
+            FGFDT[indf].fd = -1;
             return -1;
         }
         FGFDT[indf].open_flag = 1;
-- 
2.43.0


From 237a7b929416e589a228a957b63b6ab722919bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 082/205] fix: the data of an archive member start after its
 name and have its length

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 62c1387..4d9b2cd 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1844,8 +1844,8 @@ static long long filepos(
         }
     } while(!found);
 
-    subfile_length = (nd * 8) / sizeof(uint32_t);
-    off64_t pos64 = lseek(FGFDT[indf].fd, 0, SEEK_END);
+    subfile_length = (nd64 * 8) / sizeof(uint32_t);
+    off64_t pos64 = lseek(FGFDT[indf].fd, 0, SEEK_CUR);
     return pos64 / sizeof(uint32_t);
 }
 
-- 
2.43.0


From f668b1fa0dc3896e881a31763a6e79cad839c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 083/205] fix: an archive member name longer than the name
 buffer does not overflow it

---
 src/primitives/c_baseio.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 4d9b2cd..4e26a81 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1734,7 +1734,7 @@ static long long filepos(
     //! [in] Index of the subfile in the master file table
     const int indf
 ) {
-    char sign[25];
+    char sign[25] = "";
 
     typedef struct {
         unsigned char ntotal[4];
@@ -1831,9 +1831,13 @@ static long long filepos(
                 return -1;
             }
         }
-        nblu64 = read(FGFDT[indf].fd, cmcarc.cmcarc_name, lng64);
-        if (nblu64 != lng64) return -3;
-        if (strcmp(FGFDT[indf].subname, &cmcarc.cmcarc_name[1]) == 0) {
+        // the part of a name that is longer than any known name is skipped
+        int64_t skip64 = (lng64 > MAX_NAME) ? lng64 - MAX_NAME : 0;
+        nblu64 = read(FGFDT[indf].fd, cmcarc.cmcarc_name, lng64 - skip64);
+        if (nblu64 != lng64 - skip64) return -3;
+        if (skip64 > 0 && lseek64(FGFDT[indf].fd, skip64, SEEK_CUR) == -1) return -1;
+        if (skip64 == 0 && strlen(FGFDT[indf].subname) < lng64 - 1 &&
+            strncmp(FGFDT[indf].subname, &cmcarc.cmcarc_name[1], lng64 - 1) == 0) {
             found = 1;
         } else {
             // sauter les donnees
-- 
2.43.0


From bbe6ed8045ea0dbb14e2c4ce23421bb743b8d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 084/205] fix: a word-addressable file opened without fnom has
 room for its name, and a type

---
 src/primitives/c_baseio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 4e26a81..decd4f7 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -810,7 +810,8 @@ int c_waopen2(
         }
 
         // file is not associated with fnom, file name is set to Wafileiun
-        FGFDT[entry].file_name = malloc(10);
+        FGFDT[entry].file_name = malloc(20);
+        FGFDT[entry].file_type = calloc(1, 1);
         sprintf(FGFDT[entry].file_name, "%s%d", "Wafile", iun);
         FGFDT[entry].attr.wa = 1;
         FGFDT[entry].attr.rnd = 1;
-- 
2.43.0


From 5cd0f73f65c1fd57dab03e6e53b242bb2e706374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 085/205] fix: a full file table is not read past its end

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index decd4f7..bcc9a4f 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -355,7 +355,7 @@ int c_fnom(
     while (entry < MAXFILES && FGFDT[entry].iun != 0) {
         entry++;
     }
-    if (FGFDT[entry].iun == 0) {
+    if (entry < MAXFILES) {
         FGFDT[entry].iun = liun;
     } else {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: too many files, file table is full\n",__func__);
-- 
2.43.0


From e5fa6315be832df6026b0001d578fb5d107da729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 086/205] fix: the first call to fnom keeps the units opened
 before it

---
 src/primitives/c_baseio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index bcc9a4f..b623b88 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -296,7 +296,8 @@ int c_fnom(
         CMCCONST = getenv("CMCCONST");
         if( CMCCONST == NULL ) CMCCONST = LOCALDIR;
         for (int i = 0; i < MAXFILES; i++) {
-            reset_file_entry(i);
+            // a unit may have been opened by waopen before
+            if (FGFDT[i].iun == 0) reset_file_entry(i);
         }
         fnom_initialized = 1;
     }
-- 
2.43.0


From 8f45c44b1f3592c3d6ce7007d1fd50725d4b0e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:16 +0000
Subject: [PATCH 087/205] fix: a page that cannot be read is not taken for a
 complete one

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index b623b88..7d0aa03 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2063,7 +2063,7 @@ static void wa_page_read(
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
 
         wseek(fd, wafile[fileIdx].page[pageIdx].wa0 - 1, SEEK_SET);
-        uint32_t readbytes;
+        int readbytes;
         if (WA_PAGE_SIZE + wafile[fileIdx].page[pageIdx].wa0 > FGFDT[indf].file_size) {
             readbytes = sizeof(uint32_t) * (FGFDT[indf].file_size + 1 - wafile[fileIdx].page[pageIdx].wa0);
         } else {
-- 
2.43.0


From 0903fd2de5208b3732e95af684e679e45e4308c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:47 +0000
Subject: [PATCH 088/205] fix: a file opened in the table entry of a closed
 archive starts at its own first word

---
 src/primitives/c_baseio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 7d0aa03..d103f98 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1973,6 +1973,7 @@ static int qqcopen(
             return -1;
         }
         wafile[ind].file_desc = fd;
+        wafile[ind].offset = 0;
         FGFDT[indf].fd = fd;
         FGFDT[indf].open_flag = 1;
     }
-- 
2.43.0


From 6588d6c980484346dcd230b484dae4e74bfa32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 089/205] fix: a unit whose file could not be opened as XDF is
 released

---
 src/fstd98/xdf98.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index fbd45b8..5213a7a 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1717,8 +1717,8 @@ int c_xdfloc2(
 }
 
 
-//! Open an XDF file.
-int c_xdfopn(
+//! Connect an XDF file to a free slot of the file table.
+static int connect_xdf_file(
     //! [in] Unit number associated to the file
     int iun,
     //! [in] Open mode (READ, WRITE, R-W, CREATE, APPEND)
@@ -1757,6 +1757,7 @@ int c_xdfopn(
     }
 
     int index = get_free_index();
+    if (index < 0) return index;
     file_table[index]->iun = iun;
     file_table[index]->file_index = index;
 
@@ -2039,6 +2040,38 @@ int c_xdfopn(
 }
 
 
+//! Open an XDF file.
+int c_xdfopn(
+    //! [in] Unit number associated to the file
+    int iun,
+    //! [in] Open mode (READ, WRITE, R-W, CREATE, APPEND)
+    char *mode,
+    //! [in] Primary keys
+    word_2 *pri,
+    //! [in] Number of primary keys
+    int npri,
+    //! [in] Info keys
+    word_2 *aux,
+    //! [in] Number of info keys
+    int naux,
+    //! [in] Application signature
+    char *appl
+) {
+    const int ier = connect_xdf_file(iun, mode, pri, npri, aux, naux, appl);
+    if (ier < 0 && ier != ERR_FILE_OPN) {
+        // The file could not be opened, the unit must not be left connected to a slot of the file table
+        const int index = file_index(iun);
+        if (index >= 0) {
+            for (int i = 0; i < file_table[index]->npages; i++) {
+                free(file_table[index]->dir_page[i]);
+            }
+            init_file(index);
+        }
+    }
+    return ier;
+}
+
+
 //! Set different options in xdf.
 int c_xdfopt(
     //! [in] Name of option to set
-- 
2.43.0


From 2fe81674e8b01faaf401df9c9c11b8d10e385486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 090/205] fix: the directory of a file that was not closed ends
 at its last linked page

---
 src/fstd98/xdf98.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5213a7a..10fa340 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1907,7 +1907,13 @@ static int connect_xdf_file(
                         Lib_Log(APP_LIBFST,APP_ERROR,"%s: incorrect checksum in page %d, directory is probably damaged\n file in error %s\n",__func__,i,FGFDT[index_fnom].file_name);
                     }
                     wdaddress = W64TOWD(curpage->nxt_addr - 1) +1;
-                    if (((wdaddress == 0) && (i != f->header->nbd-1)) || (wdaddress > FGFDT[index_fnom].file_size)) {
+                    if ((curpage->nxt_addr == 0) && (i != f->header->nbd-1)) {
+                        // The file was not closed after the last page was added, the directory ends here
+                        Lib_Log(APP_LIBFST,APP_WARNING,"%s: number of directory pages is incorrect\n file in error %s\n",__func__,FGFDT[index_fnom].file_name);
+                        f->header->nbd = i + 1;
+                        f->header->plst = curpage->addr;
+                    }
+                    if (wdaddress > FGFDT[index_fnom].file_size) {
                         Lib_Log(APP_LIBFST,APP_ERROR,"%s: number of directory pages is incorrect\n file in error %s\n",__func__,FGFDT[index_fnom].file_name);
                         return(ERR_BAD_DIR);
                     }
-- 
2.43.0


From 205babb3e8fca191a9ffc25c440f080208e7fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 091/205] fix: rewinding a new sequential file goes to its
 first record, not to its header

---
 src/fstd98/xdf98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 10fa340..06234da 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1813,6 +1813,7 @@ static int connect_xdf_file(
             add_dir_page(index, WMODE);
         } else {
             f->cur_addr = f->nxtadr;
+            f->seq_bof = f->nxtadr;
             f->header->fsiz = WDTO64(f->nxtadr -1);
         }
         f->header->rwflg = CREATE;
-- 
2.43.0


From 2ce9e3cbe93c8787bd6e9f8690d0631a28688169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 092/205] fix: the name of the whiteboard checkpoint file is
 terminated

---
 src/whiteboard/WhiteBoard_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index bcb12a8..0041b45 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -723,11 +723,11 @@ int c_wb_checkpoint_name(
     char *filename
 ) {
     set_extra_error_message("Setting chekpoint file name", -1);
-    WhiteBoardCheckpointFile = (char *)malloc(strlen(filename));
+    WhiteBoardCheckpointFile = (char *)malloc(strlen(filename) + 1);
     if (WhiteBoardCheckpointFile == NULL) {
         return wb_error(WB_MSG_FATAL, WB_ERR_ALLOC);
     }
-    strncpy(WhiteBoardCheckpointFile, filename, strlen(filename));
+    strcpy(WhiteBoardCheckpointFile, filename);
     return wb_init();
 }
 
-- 
2.43.0


From c4a6f03143f683f5616f5d41fdaae382f99d7bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 093/205] fix: an array put into a scalar whiteboard key is
 refused

---
 src/whiteboard/WhiteBoard_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 0041b45..dcba35b 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1227,7 +1227,7 @@ int c_wb_put(
         }
         // Mark as bad value in case it fails
         line->meta.flags.badval = 1;
-        if (line->meta.flags.array == 1 && array != 1) {
+        if (line->meta.flags.array != array) {
             // Array to scalar or scalar to array is a NO NO
             return wb_error(WB_MSG_ERROR, WB_ERR_WRONGDIMENSION);
         }
-- 
2.43.0


From 27529921481bf73498f2b5da249916c6f481f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 094/205] fix: a scalar get of a whiteboard array is refused

---
 src/whiteboard/WhiteBoard_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index dcba35b..82646b8 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1075,7 +1075,7 @@ int c_wb_get(
         return wb_error(WB_MSG_ERROR, WB_ERR_WRONGTYPE);
     }
 
-    if (array && line->meta.flags.array != 1) {
+    if (line->meta.flags.array != array) {
         return wb_error(WB_MSG_ERROR, WB_ERR_WRONGDIMENSION);
     }
 
-- 
2.43.0


From 9f93b29510d5067942ca8bbcd9faf2a2cf053303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 095/205] fix: a truncated whiteboard checkpoint is refused

---
 src/whiteboard/WhiteBoard_c.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 82646b8..cbb7d2c 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1751,22 +1751,38 @@ int c_wb_reload()
     }
 
     // Page size
-    status = read(fd, &pagelen, 4);
-    while (pagelen > 0) {
+    int complete = read(fd, &pagelen, 4) == 4;
+    while (complete && pagelen > 0) {
         // Allocate new page
         status = new_page(BaseWhiteboardPtr, pagelen);
+        if (status < 0) {
+            complete = 0;
+            break;
+        }
         // Next usable entry in page
-        status = read(fd, &(BaseWhiteboardPtr->firstpage->firstFreeLine), 4);
+        complete = read(fd, &(BaseWhiteboardPtr->firstpage->firstFreeLine), 4) == 4;
         Lib_Log(APP_LIBWB,APP_DEBUG,"%s: Page %d, length=%d lines, next entry=%d\n",__func__,pageno,BaseWhiteboardPtr->firstpage->nbLines,BaseWhiteboardPtr->firstpage->firstFreeLine);
 
         // Read page
-        status = read(fd, &(BaseWhiteboardPtr->firstpage->line[0]), sizeof(wb_line) * pagelen);
+        const ssize_t pagesize = sizeof(wb_line) * (ssize_t)pagelen;
+        complete = complete && read(fd, &(BaseWhiteboardPtr->firstpage->line[0]), pagesize) == pagesize;
         // Page size of next page, 0 means no more
-        status = read(fd ,&pagelen, 4);
+        complete = complete && read(fd ,&pagelen, 4) == 4;
         pageno++;
     }
     close(fd);
 
+    if (! complete) {
+        // The checkpoint file is truncated, nothing can be kept from it
+        while (BaseWhiteboardPtr->firstpage != NULL) {
+            wb_page * const page = BaseWhiteboardPtr->firstpage;
+            BaseWhiteboardPtr->firstpage = page->next;
+            BaseWhiteboardPtr->validpages--;
+            free(page);
+        }
+        return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+    }
+
     // If variable is WB_REWRITE_AT_RESTART, erase the read-only flag
     status = c_wb_check(BaseWhiteboardPtr, "", WB_REWRITE_AT_RESTART, 0, 0, wb_cb_read_write, NULL);
     // If variable is WB_READ_ONLY_ON_RESTART, make sure it is now marked as reasd-only
-- 
2.43.0


From 9d8d3d01ff6e06766b4c69cdad9f7d5449a689aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 096/205] fix: the whiteboard checkpoint file is closed

---
 src/whiteboard/WhiteBoard_c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index cbb7d2c..8902277 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1444,8 +1444,8 @@ int c_wb_checkpoint()
 
     // 0 length page is the end marker
     status = write(fd, &zero, 4);
+    close(fd);
     if (status < 0) {
-        close(fd);
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
     }
 
@@ -1740,6 +1740,7 @@ int c_wb_reload()
     }
     
     if (BaseWhiteboardPtr->firstpage != NULL) {
+        close(fd);
         return wb_error(WB_MSG_ERROR,WB_ERR_INITRESTART);
     }
    
-- 
2.43.0


From e481ad9ff5a68e8daf3c071d07358fb0e701d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 097/205] fix: every whiteboard key with a value that is
 read-only on restart is locked at restart

---
 src/whiteboard/WhiteBoard_c.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 8902277..edd778e 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1572,6 +1572,18 @@ static int wb_cb_read_only(
 }
 
 
+//! c_wb_check callback to set the read-only line attribute at restart, of the lines that have a value
+//! \return Always 0
+static int wb_cb_read_only_on_restart(
+    //! [in] Line to set read-only
+    wb_line *line,
+    //! [in] Unused
+    void *blinddata
+) {
+    return line->meta.flags.initialized ? wb_cb_read_only(line, blinddata) : 0;
+}
+
+
 //! c_wb_check callback to remove the read-only attribute of the provided line
 //! \return Always 0
 static int wb_cb_read_write(
@@ -1787,7 +1799,7 @@ int c_wb_reload()
     // If variable is WB_REWRITE_AT_RESTART, erase the read-only flag
     status = c_wb_check(BaseWhiteboardPtr, "", WB_REWRITE_AT_RESTART, 0, 0, wb_cb_read_write, NULL);
     // If variable is WB_READ_ONLY_ON_RESTART, make sure it is now marked as reasd-only
-    status = c_wb_check(BaseWhiteboardPtr, "", WB_READ_ONLY_ON_RESTART, 0, 0, wb_cb_read_only, NULL);
+    status = c_wb_check(BaseWhiteboardPtr, "", WB_READ_ONLY_ON_RESTART, 0, 0, wb_cb_read_only_on_restart, NULL);
     // If variable is local (not the same on ALL MPI whiteboards, mark it as not initialized
     status = c_wb_check(BaseWhiteboardPtr, "", WB_IS_LOCAL, 0, 0, wb_cb_undefined, NULL);
     // Mark all variables as having been created by a restart
-- 
2.43.0


From 37651609ab9a21226b5ddc277534244ca00ae15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:42 +0000
Subject: [PATCH 098/205] fix: the first put to the whiteboard sees the keys of
 the checkpoint file

---
 src/whiteboard/WhiteBoard_c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index edd778e..99ed3a7 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1211,6 +1211,11 @@ int c_wb_put(
     wb_line *line;
     wb_page *page;
     int stored_type, stored_size, stored_nbelem;
+    if (wb == BaseWhiteboardPtr && BaseWhiteboardPtr->firstpage == NULL) {
+        // First time through, the key may come from the checkpoint file
+        int status = wb_init();
+        if (status < 0) return status;
+    }
     // No screaming if not found
     int lookup_result = c_wb_lookup(wb, name, &stored_type, &stored_size, &stored_nbelem, &line, &page, 0, nameLength);
     if (lookup_result >= 0) {
-- 
2.43.0


From 8a05609ccd006bdadec623489df36313da92a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 099/205] fix: a search of a sequential file continues after an
 erased record

---
 src/fstd98/xdf98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 06234da..29b32ac 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3317,7 +3317,7 @@ static uint32_t next_match(
         while (! found) {
             nw = c_waread2(iun, f->head_keys, f->cur_addr, width);
             header = (xdf_record_header *) f->head_keys;
-            if ((header->idtyp >= 112) || (nw < width)) {
+            if (((header->idtyp >= 112) && (header->idtyp <= 127)) || (nw < width)) {
                 if ((header->idtyp >= 112) && (header->idtyp < 127)) {
                     f->cur_addr += W64TOWD(1);
                 }
-- 
2.43.0


From 16d3da5c0bd841ec1a57de9121f30ba1f2ff144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:25 +0000
Subject: [PATCH 100/205] fix: a search of a sequential file skips the postfix
 of every record, and only that

---
 src/fstd98/xdf98.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 29b32ac..c6d7dfc 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -64,6 +64,7 @@ static int32_t rewind_file(int file_index, int handle);
 static int create_new_xdf(int index, int iun, word_2 *pri, int npri,
                           word_2 *aux, int naux, char *appl);
 static uint32_t next_match(int file_index);
+static void skip_postfix(file_table_entry *f);
 static void build_gen_prim_keys(uint32_t *buf, uint32_t *keys, uint32_t *mask,
                                 uint32_t *mskkeys, int index, int mode);
 static void build_gen_info_keys(uint32_t *buf, uint32_t *keys, int index,
@@ -1637,6 +1638,7 @@ int c_xdfloc2(
                 c_waread(iun, &header, f->cur_addr, W64TOWD(1));
             }
             f->cur_addr += W64TOWD(header.lng);
+            skip_postfix(f);
         }
     } else if (handle == 0) {
         //! Search from beginning of file
@@ -3237,6 +3239,21 @@ static int32_t make_seq_handle(
 }
 
 
+//! Move the current address of a sequential file past the postfix of the record that ends there, if any
+static void skip_postfix(
+    //! [in,out] File table entry
+    file_table_entry *f
+) {
+    postfix_seq postfix;
+
+    if (f->fstd_vintage_89) return;
+    if (c_waread2(f->iun, &postfix, f->cur_addr, W64TOWD(2)) != W64TOWD(2)) return;
+    if ((postfix.idtyp == 0) && (postfix.lng == 2) && (postfix.addr == -1)) {
+        f->cur_addr += W64TOWD(2);
+    }
+}
+
+
 //! Find the next record that matches the current search criterias.
 //! \return Handle of the next matching record or error code
 static uint32_t next_match(
@@ -3414,6 +3431,7 @@ static uint32_t next_match(
 
             if ((header->idtyp < 1) || (header->idtyp > 127)) {
                 f->cur_addr += W64TOWD(header->lng);
+                skip_postfix(f);
                 continue;
             }
             entry = (uint32_t *) f->head_keys;
@@ -3431,10 +3449,7 @@ static uint32_t next_match(
             }
             // Position to next record
             f->cur_addr += W64TOWD(header->lng);
-            if (! f->fstd_vintage_89) {
-                // Skip postfix
-                f->cur_addr += W64TOWD(2);
-            }
+            skip_postfix(f);
         }
     }
 
-- 
2.43.0


From 336a34c6d8fa2894b7e5bbb0652c5252728d6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:25 +0000
Subject: [PATCH 101/205] fix: an end-of-file mark is refused by a sequential
 file open for reading

---
 src/fstd98/fstd98.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index f4e8557..7f1b8e4 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3385,6 +3385,11 @@ int c_fstweo(
         return(ERR_BAD_FTYPE);
     }
 
+    if ((f->header->rwflg == RDMODE) || (f->cur_info->attr.read_only)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,iun);
+        return(ERR_NO_WRITE);
+    }
+
     VALID(level, 1, 15, "level", "c_fstweo");
     if (level < 15) {
         header64.idtyp = 112 + level;
@@ -3396,6 +3401,7 @@ int c_fstweo(
         f->cur_addr += W64TOWD(1);
     }
     header64.idtyp = 127;
+    header64.lng = 1;
     header64.addr = f->cur_addr;
     c_wawrit(iun, &header64, f->cur_addr, W64TOWD(1));
     f->nxtadr = f->cur_addr;
-- 
2.43.0


From 67dc8319e7511d47a82fc05c919dfafd1a614142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:51 +0000
Subject: [PATCH 102/205] fix: a search that reaches the physical end of a
 sequential file reports the end-of-file level

---
 src/fstd98/xdf98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index c6d7dfc..2547ae8 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3334,6 +3334,11 @@ static uint32_t next_match(
         while (! found) {
             nw = c_waread2(iun, f->head_keys, f->cur_addr, width);
             header = (xdf_record_header *) f->head_keys;
+            if (nw < W64TOWD(1)) {
+                // Physical end of file
+                header->idtyp = 127;
+                header->lng = 1;
+            }
             if (((header->idtyp >= 112) && (header->idtyp <= 127)) || (nw < width)) {
                 if ((header->idtyp >= 112) && (header->idtyp < 127)) {
                     f->cur_addr += W64TOWD(1);
-- 
2.43.0


From cd987d820009dec4127d88b8bdcd495725bbd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 103/205] fix: listing the records of a sequential file stops
 at an end-of-file mark

---
 src/fstd98/fstd98.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 7f1b8e4..6fbf864 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1948,7 +1948,11 @@ int c_fstinl(
     *infon = nfound;
     Lib_Log(APP_LIBFST,APP_DEBUG,"%s: nombre trouve=%d nmax=%d\n",__func__,nfound,nmax);
 
-    while ( (handle = c_fstsui(iun, ni, nj, nk)) >= 0 ) nfound++;
+    if (handle >= 0) {
+        // The list is full, count the other matching records
+        if (nfound == 0) nfound = 1;
+        while ( (handle = c_fstsui(iun, ni, nj, nk)) >= 0 ) nfound++;
+    }
     if (nfound > nmax) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: number of records found (%d) > nmax specified (%d)\n",__func__,nfound,nmax);
         return(-nfound);
-- 
2.43.0


From fdb58dfd37184a71c593e6a697fd8787f8032e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 104/205] fix: copying a whiteboard string does not look beyond
 its end

---
 src/whiteboard/WhiteBoard_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 99ed3a7..912c6cf 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -504,7 +504,7 @@ static int c_fortran_string_copy(
     int i = 0;
 
     // If there is a null before src_len characters in the source string, act as if it was terminated at null
-    while (src[i] != 0 && i < src_len) {
+    while (i < src_len && src[i] != 0) {
         i++;
     }
     src_len = i;
-- 
2.43.0


From a6ae2ec5cdf2abb7e356ba07b6a41e1b7b6effcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 105/205] fix: the extended stamp of the first hour of year
 10000 is refused in every mode

---
 src/base/moduledate.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 6c45b1f..9265339 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1554,7 +1554,7 @@
         date_unsigned = stamp8
 !!!     if (w16(1).eq.0) date_unsigned = ishft(stamp8,-32)
         if (date_unsigned < troisg .or. &
-           date_unsigned > troisg + max_offset) then
+           date_unsigned >= troisg + max_offset) then
            write(app_msg,*)'naetwed: newdate error, nvalid stamp for mode -6, stamp=',stamp
            call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
            goto 4
-- 
2.43.0


From dbd88cc57c189cfc2e6c8f5d0479d5f840e7507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 106/205] fix: an extended true date outside years 0 to 9999
 has no stamp

---
 src/base/moduledate.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 9265339..9bf4a3d 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1528,6 +1528,7 @@
 !
 104   continue
       tdate=dat1
+      if (tdate < 0 .or. tdate >= (jd10k-jd0)*24) goto 4
       if (tdate == exception .or.      &      ! 1901010101
          (tdate/24+jd0) <  jd1900 .or. &
          (tdate/24+jd0) >= jd2236) then ! extended stamp
-- 
2.43.0


From 40930b0f795be7eb676e819becf703eaa8f4f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 107/205] fix: adding hours beyond years 0 to 9999 is refused
 before the calendar is adjusted

---
 src/base/moduledate.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 9bf4a3d..11ec499 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -365,6 +365,7 @@
       integer idate(2),pdate1(2)
       integer td1900, td2235
       data td1900 /-504904320/, td2235 /1615714548/
+      integer, parameter :: td10k = 87658200 ! extended true date of jan 1, 10000
 
       rounding=.false.
       goto 4
@@ -439,7 +440,9 @@
            goto 2
         endif
         if (adding) then
+          if (abs(nhours) > td10k) goto 2
           tdate1=tdate2+nint(nhours)
+          if (tdate1 < 0 .or. tdate1 >= td10k) goto 2
           if (no_leap_years .or. ccclx_days) then
             ndays = Calendar_Adjust_int(tdate1,tdate2,'E',adding)
             tdate1 = tdate1 + (ndays*24)
@@ -498,7 +501,9 @@
                 call lib_log(APP_LIBRMN,APP_DEBUG,app_msg)
                 goto 2
              endif
+             if (abs(nhours) > td10k) goto 2
              tdate1=tdate2+nint(nhours)
+             if (tdate1 < 0 .or. tdate1 >= td10k) goto 2
              if (no_leap_years .or. ccclx_days) then
                ndays = Calendar_Adjust_int(tdate1,tdate2,'E',adding)
                tdate1 = tdate1 + (ndays*24)
-- 
2.43.0


From 7cadabc296658a078796a69ec0799a7f7512e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 108/205] fix: adding hours keeps the seconds of the last
 minute of year 2235

---
 src/base/moduledate.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 11ec499..5cf9275 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -347,7 +347,7 @@
 !               EXT_TRUE_DATE=(EXT_FALSE_DATE/10)*8+MOD(EXT_FALSE_DATE,10)
 !             AS THIS EXTENDED DATE IS STORED IN A SIGNED INTEGER,
 !             THE STORED VALUE WILL BE A LARGE NEGATIVE ONE.
-!         - td2235 = truedate of dec 31, 2235, 23h59
+!         - td2235 = truedate of dec 31, 2235, 23h59m55s
 !         - td1900 = -504904320 = truedate of jan 1, 1900
 !--------------------------------------------------------------------
 !
@@ -364,7 +364,7 @@
       integer tdate1,tdate2,runnum,ndays,pdate2
       integer idate(2),pdate1(2)
       integer td1900, td2235
-      data td1900 /-504904320/, td2235 /1615714548/
+      data td1900 /-504904320/, td2235 /1615714559/
       integer, parameter :: td10k = 87658200 ! extended true date of jan 1, 10000
 
       rounding=.false.
-- 
2.43.0


From 6ac21ce4bc4918dad617b95c5cd48119631f7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 109/205] fix: a true date after year 2235 is refused instead
 of giving an invalid stamp

---
 src/base/moduledate.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 5cf9275..24d3673 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1267,6 +1267,7 @@
       integer itdmag2
       data tdstart /123200000/,jd1980 /2444240/,jd1900 /2415021/
       data jd0 /1721060/,jd10k /5373485/, max_offset /109572750/
+      integer, parameter :: td2236 = (2537742-2444240)*17280 ! truedate of jan 1, 2236
       data jd2236 /2537742/, exception /16663825/
       data td2000 /126230400/, td1900 /-504904320/
       data mdays /31,29,31,30,31,30,31,31,30,31,30,31/
@@ -1288,8 +1289,9 @@
            -3*((year+4900+(month-14)/12)/100)/4
 !
 !     check that date > jan 1, 1980 if 5 sec interval, else > jan 1,1900
+!     and < jan 1, 2236
 !
-      validtd(tdate)=((tdate.ge.0) .or. ((tdate.lt.0) .and.  &
+      validtd(tdate)=((tdate.ge.0 .and. tdate < td2236) .or. ((tdate.lt.0) .and.  &
            (tdate >= td1900).and.(mod(tdate-td1900,720) == 0)))
 !
 !     check that year,month,day,zulu have valid values
-- 
2.43.0


From 83c30cc3508bf6e91b72cd2f88a1f08d3a6ac4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 110/205] fix: a stamp that is no date is refused when it is
 converted to a true date

---
 src/base/moduledate.f90 | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 24d3673..f1dee15 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1457,6 +1457,10 @@
          year=mod(stamp/1000,100)+1900
          day=mod(stamp/100000,100)
          month=mod(stamp/10000000,100)
+         if (.not.validtm(year,month,day,zulu)) goto 4
+         if ((month .eq. 2) .and. (day .eq. 29)) then
+            if (.not. bissextile(year)) goto 4
+         endif
          tdate=(jd(year,month,day)-jd1980)*17280+zulu*720
       endif
       if (.not.validtd(tdate)) goto 4
@@ -1575,6 +1579,7 @@
         if (stamp.ge.tdstart) then
 !     stamp is a new date-time stamp
           tdate=(stamp-tdstart)/10*8+mod(stamp-tdstart,10)
+          if (.not.validtd(tdate)) goto 4
           call datec(jd1900+(tdate-td1900)/17280,year,month,day)
           zulu=mod(tdate-td1900,17280)/720
           runnb=0
@@ -1588,6 +1593,10 @@
            year=mod(stamp/1000,100)+1900
            day=mod(stamp/100000,100)
            month=mod(stamp/10000000,100)
+           if (.not.validtm(year,month,day,zulu)) goto 4
+           if ((month .eq. 2) .and. (day .eq. 29)) then
+              if (.not. bissextile(year)) goto 4
+           endif
            tdate=(jd(year,month,day)-jd0)*24+zulu
 !           print *,'Debug old date stamp tdate=',tdate
         endif
-- 
2.43.0


From 1d021606a29a5c89ad313d24d14ee4fe7b29b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 111/205] fix: a printable date after year 9999 is refused
 instead of losing its leading digits

---
 src/base/moduledate.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index f1dee15..db62a80 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1356,7 +1356,7 @@
  7    dtpr=dat2(1)
       tmpr=dat3
       dat1=0
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
 !     dtpr,tmpr=19010101,01000000 will be encoded extended stamp
 !     as the corresponding old date-time stamp is used as an
 !     error indicator by INCDATR/IDATMG2/DATMGP2
@@ -1406,7 +1406,7 @@
 !     as the corresponding old date-time stamp is used as an
 !     error indicator by INCDATR/IDATMG2/DATMGP2
       if (dtpr == 19010101 .and. tmpr == 01000000) goto 107
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
       month=mod(dtpr/100,100)
       day=mod(dtpr,100)
       zulu=mod(tmpr/1000000,100)
@@ -1486,7 +1486,7 @@
       dtpr=dat2(1)
       tmpr=dat3
       dat1=0
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
       month=mod(dtpr/100,100)
       day=mod(dtpr,100)
       zulu=mod(tmpr/1000000,100)
@@ -1625,7 +1625,7 @@
 !
 107   dtpr=dat2(1)
       tmpr=dat3
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
       if (year < 0 .or. year >= 10000) then
          write(app_msg,*)'naetwed: newdate error, date outside of supported range, date =',dtpr
          call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
-- 
2.43.0


From 619e148b01f06fc2e94aeda7096e4c2593e304f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 112/205] fix: adding hours in the 360-day calendar leaves the
 range of true dates properly

---
 src/base/moduledate.f90 | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index db62a80..c341505 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1148,6 +1148,16 @@
 
          ier = naetwed( tdateL, p1a,p1b, print2true )
 
+         if (ier /= 0 .and. true_date_mode == 'B') then ! out of the range of basic TrueDates
+            ier = naetwed( tdateL, p1a,p1b, 7 )
+            tdateL = ( tdateL - 17356320 )*720 + mi1*12 + se1/5 ! 17356320 = 1980/01/01 00Z
+         endif
+         if (ier /= 0) then ! outside of years 0 to 9999
+            CcclxDays_Adjust_int = (87658200 - tdate1)/24 + 1
+            if (nhours < 0) CcclxDays_Adjust_int = -tdate1/24 - 1
+            return
+         endif
+
          ! ensure that tdate1 + CcclxDays_Adjust = tdateL
          CcclxDays_Adjust_int = ( tdateL - tdate1 ) / addit
 
-- 
2.43.0


From 6c0f13883441d3332204b6ff6b943ca67f019a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 113/205] fix: rounding a date to the hour in a 365-day or
 360-day calendar does not leave the calendar

---
 src/base/moduledate.f90 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index c341505..55e79cb 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -471,8 +471,7 @@
            goextend=.false.
            rounding=rounding.or.(tdate2.lt.0)
            if (rounding) then
-              tdate2=(tdate2+sign(360,tdate2))/720*720
-              addit = 720*nint(nhours,8)
+              addit = (tdate2+sign(360,tdate2))/720*720 - tdate2 + 720*nint(nhours,8)
            else
               addit = nint(720*nhours,8)
            endif
@@ -518,6 +517,10 @@
               goto 2
            endif
         else
+           ndays = 0
+           if (no_leap_years .or. ccclx_days) then ! before rounding, to stay within the calendar
+             ndays = Calendar_Adjust_int(tdate1,tdate2,'B',adding)
+           endif
            if (rounding) then
               tdate1=(tdate1+sign(360,tdate1))/720*720
               tdate2=(tdate2+sign(360,tdate2))/720*720
@@ -526,10 +529,7 @@
               nhours=(tdate1-tdate2)
               nhours=nhours/720.0
            endif
-           if (no_leap_years .or. ccclx_days) then
-             ndays = Calendar_Adjust_int(tdate1,tdate2,'B',adding)
-             nhours = nhours - (ndays*24)
-           endif
+           nhours = nhours - (ndays*24)
         endif
       endif
       return
-- 
2.43.0


From 0a13b9373550247d99e11a610f02ba2c0e23c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 114/205] fix: adding hours in the 360-day calendar can reach 1
 January 1901 01Z

---
 src/base/moduledate.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 55e79cb..a4e8097 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1148,7 +1148,8 @@
 
          ier = naetwed( tdateL, p1a,p1b, print2true )
 
-         if (ier /= 0 .and. true_date_mode == 'B') then ! out of the range of basic TrueDates
+         if (true_date_mode == 'B' .and. (ier /= 0 .or. & ! out of the range of basic TrueDates
+             (p1a(1) == 19010101 .and. p1b == 1000000))) then ! or encoded as extended TrueDate
             ier = naetwed( tdateL, p1a,p1b, 7 )
             tdateL = ( tdateL - 17356320 )*720 + mi1*12 + se1/5 ! 17356320 = 1980/01/01 00Z
          endif
-- 
2.43.0


From bdfafb93af5a603607e1f62f5cb51792bdd73aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 115/205] fix: adding more hours than there are in years 0 to
 9999 is refused in every calendar

---
 src/base/moduledate.f90 | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index a4e8097..603db4e 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -416,6 +416,7 @@
 
  1    continue
       call Get_calendar_Status_int( no_leap_years,ccclx_days )
+      if (adding .and. .not. (abs(nhours) <= td10k)) goto 2
       if (idate2 .lt. -1 .or. &
          (idate1 .lt. -1 .and. .not.adding)) then
         if (idate2 .gt.-1) then
@@ -440,7 +441,6 @@
            goto 2
         endif
         if (adding) then
-          if (abs(nhours) > td10k) goto 2
           tdate1=tdate2+nint(nhours)
           if (tdate1 < 0 .or. tdate1 >= td10k) goto 2
           if (no_leap_years .or. ccclx_days) then
@@ -500,7 +500,6 @@
                 call lib_log(APP_LIBRMN,APP_DEBUG,app_msg)
                 goto 2
              endif
-             if (abs(nhours) > td10k) goto 2
              tdate1=tdate2+nint(nhours)
              if (tdate1 < 0 .or. tdate1 >= td10k) goto 2
              if (no_leap_years .or. ccclx_days) then
-- 
2.43.0


From afc4c4e46e136df415c20b18c682ae4c359a3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 116/205] fix: counting back from the last instant of 28
 February does not skip a leap day that is not crossed

---
 src/base/moduledate.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 603db4e..1efb1c0 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -948,7 +948,7 @@
           else
             ier = naetwed(tdate29f,dat,limite,print2true)
             if (tdate29f <= tdate28f) call lib_log(APP_LIBRMN,APP_ERROR,'LeapYear_Adjust_int: tdate29f < tdate28f')
-            if ((tdate2 >= tdate28f) .and. (tdate1L <= tdate29f)) then
+            if ((tdate2 > tdate28f) .and. (tdate1L <= tdate29f)) then
               ndays = ndays+inc
               tdate1L = tdate1L+addit*inc
             endif
@@ -972,7 +972,7 @@
           else
             ier = naetwed(tdate29f,dat,limite,print2true)
             if (tdate29f <= tdate28f) call lib_log(APP_LIBRMN,APP_ERROR,'LeapYear_Adjust_int: tdate29f < tdate28f')
-            if ((tdate2 >= tdate28f) .and. (tdate1L <= tdate29f)) then
+            if ((tdate2 > tdate28f) .and. (tdate1L <= tdate29f)) then
               ndays = ndays+inc
               tdate1L = tdate1L+addit*inc
             endif
-- 
2.43.0


From 875f8d6cbe8b6737a08b3505062d60abab393e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 117/205] fix: the listing of a standard file does not cut
 large dimensions and grid descriptors short

---
 src/fstd98/fstd98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 6fbf864..204d5fa 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -314,8 +314,8 @@ static void print_std_parms(
     int ig1, ig2, ig3, ig4;
     char c_level[16], pg1[7], pg2[7], pg3[8], pg4[8];
     char h_dims[23], h_dateo[16], h_stampo[10], h_datev[26], h_level[16], h_ip1[10], h_grid[32];
-    char v_dims[23], v_dateo[16], v_stampo[10], v_datev[26], v_level[16], v_ip1[10], v_grid[32];
-    char h_decoded[39], v_decoded[39];
+    char v_dims[36], v_dateo[16], v_stampo[10], v_datev[26], v_level[16], v_ip1[10], v_grid[52];
+    char h_decoded[39], v_decoded[64];
     char h_nomv[5], h_typv[3], h_etiq[13], h_ip23[20], h_deet[9], h_npas[9], h_dty[5];
     char v_nomv[5], v_typv[3], v_etiq[13], v_ip23[20], v_deet[9], v_npas[9], v_dty[5];
     int posc, posv;
-- 
2.43.0


From 4525fe26bc845c1484241433e2a8bf634be658dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 118/205] fix: the grid descriptors of a listing are decoded
 according to the grid type

---
 src/fstd98/convip.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/convip.f b/src/fstd98/convip.f
index 79a524c..4de94d0 100644
--- a/src/fstd98/convip.f
+++ b/src/fstd98/convip.f
@@ -525,6 +525,7 @@ c     %         goto 101
       character(len=128) :: pg1_, pg2_, pg3_, pg4_
       character(len=1) :: grtyp_
       integer :: l1, l2, l3, l4
+      grtyp_ = grtyp
       call igapg(grtyp_,pg1_,pg2_,pg3_,pg4_,ig1,ig2,ig3,ig4)
       l1 = len(trim(pg1_)) + 1
       l2 = len(trim(pg2_)) + 1
-- 
2.43.0


From 834435f247409543b37a88bbbd50ac4a57ec7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 119/205] fix: fstcheck does not read past the end of the
 Fortran file name

---
 src/fstd98/fstd98.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 204d5fa..6d5503a 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -4899,7 +4899,11 @@ int32_t f77name(fstopr)(char *f_option, float *f_value, int32_t * f_getmode,
 int32_t f77name(fstcheck)(char *filename, F2Cl lng)
 {
   int ier;
-  ier = c_fstcheck(filename);
+  char filename_cstr[lng + 1];
+
+  str_cp_init(filename_cstr, lng + 1, filename, lng);
+  for (int i = lng - 1; i >= 0 && filename_cstr[i] == ' '; i--) filename_cstr[i] = '\0';
+  ier = c_fstcheck(filename_cstr);
   return (int32_t) ier;
 }
 
-- 
2.43.0


From 31d3ada82a3d64216f2050993588cb55d754c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 120/205] fix: fstopi and fstopl recognise option names of any
 length with trailing blanks

---
 src/fstd98/fstd98.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 6d5503a..4a70f14 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -4816,10 +4816,12 @@ int32_t f77name(fstopi)(char *f_option, int32_t *f_value, int32_t * f_getmode,
 {
   int getmode = *f_getmode, value = *f_value, ier;
   int l1 = ll1;
-  char option[7] = {' ', ' ', ' ', ' ', ' ', ' ', '\0'};
+  char option[17];
 
-  l1 = (l1 > 6) ? 6 : l1;
+  l1 = (l1 > 16) ? 16 : l1;
+  while ((l1 > 0) && (f_option[l1 - 1] == ' ')) l1--;
   strncpy(option, f_option, l1);
+  option[l1] = '\0';
 
   ier = c_fstopi(option, value, getmode);
   return (int32_t) ier;
@@ -4847,6 +4849,7 @@ int32_t f77name(fstopl)(char *f_option, int32_t *f_value, int32_t * f_getmode,
   char option[17];
 
   l1 = (l1 > 16) ? 16 : l1;
+  while ((l1 > 0) && (f_option[l1 - 1] == ' ')) l1--;
   strncpy(option, f_option, l1);
   option[l1] = '\0';
 
-- 
2.43.0


From 11dec3fd48d3b6e0d97697f1969590645761865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 121/205] fix: counting the records of a file that cannot be
 opened is refused

---
 src/fstd98/fstd98.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 4a70f14..ddbf3c5 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2591,7 +2591,8 @@ int c_fstnbr(
     }
 
     if ((index = file_index(iun)) == ERR_NO_FILE) {
-        c_fstouv(iun, "RND");
+        int ier = c_fstouv(iun, "RND");
+        if (ier < 0) return ier;
         index = file_index(iun);
         fte = file_table[index];
         nrec = fte->nrecords;
@@ -2619,7 +2620,8 @@ int c_fstnbrv(
     }
 
     if ((index = file_index(iun)) == ERR_NO_FILE) {
-        c_fstouv(iun, "RND");
+        int ier = c_fstouv(iun, "RND");
+        if (ier < 0) return ier;
         index = file_index(iun);
         f = file_table[index];
         nrec = f->header->nrec;
-- 
2.43.0


From d0145cb1d21f8ce9e3b3aa42a2879ecab53a8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 122/205] fix: the number of records of a file includes those
 written since it was opened

---
 src/fstd98/xdf98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 2547ae8..235be8c 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -2340,6 +2340,7 @@ int c_xdfput(
             f->cur_entry = f->cur_dir_page->dir.entry + f->cur_dir_page->dir.nent * W64TOWD(f->primary_len);
         }
         f->page_nrecords = f->cur_dir_page->dir.nent++;
+        f->nrecords++;
         write_addr = f->nxtadr;
     }
 
-- 
2.43.0


From 555ea2b22267c41f836dbac1398f4481588101a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 123/205] fix: fstlnk refuses a list of files longer than it
 can hold

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index ddbf3c5..44875ac 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -4639,6 +4639,11 @@ int32_t f77name(fstlnk)(
     //! [in] Number of files to link
     int32_t *f_n
 ) {
+    const int max_link = sizeof(link_list) / sizeof(link_list[0]);
+    if (*f_n < 1 || *f_n > max_link) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid number of files to link: %d (maximum %d)\n",__func__,*f_n,max_link);
+        return(ERR_OUT_RANGE);
+    }
     link_n = *f_n;
     for (int i = 0; i < link_n; i++) {
         link_list[i] = liste[i];
-- 
2.43.0


From bd36e1ae655b2b0b8c2b0bad5badeb0e7f607143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 124/205] fix: fstvoi does not drop the listing options beyond
 the 79th character

---
 src/fstd98/fstd98.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 44875ac..4ce8b50 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -5155,20 +5155,8 @@ int32_t f77name(fst_version)()
  *****************************************************************************/
 int32_t f77name(fstvoi)(int32_t *f_iun, char *f_options, F2Cl ll1)
 {
-    char options[80] =
-    {' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-    ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '\0'};
-
-    int l1 = ll1;
-    l1 = (l1 > 79) ? 79 : l1;
-    strncpy(options, f_options, l1);
-    options[l1] = '\0';
+    char options[ll1 + 1];
+    str_cp_init(options, ll1 + 1, f_options, ll1);
 
     return (int32_t) c_fstvoi(*f_iun, options);
 }
-- 
2.43.0


From e02b0c6a0fb4ce3e53087808c8ec0cb6333e4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 125/205] fix: unit 0 does not designate a free entry of the
 file table

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 235be8c..a6f7f11 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3086,6 +3086,8 @@ int fnom_index(
     //! [in] Unit number associated to the file
     const int iun
 ) {
+    // Free entries of the table have a null unit number
+    if (iun <= 0) return -1;
     for (int i = 0; i < MAXFILES; i++) {
         if (FGFDT[i].iun == iun) {
             return i;
-- 
2.43.0


From f0ea0bdaf244a742e5c9d8329a15b88e6ea0bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 126/205] fix: erasing or editing a record by the handle of a
 file that is not open is refused

---
 src/fstd98/fstd98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 4ce8b50..ae4e980 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1443,7 +1443,7 @@ int c_fst_edit_dir_plus(
     }
 
     f = file_table[index];
-    if (f == NULL) {
+    if ((f == NULL) || (f->iun < 0)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
         return(ERR_BAD_HNDL);
     }
@@ -1588,7 +1588,7 @@ int c_fsteff(
     }
 
     f = file_table[index];
-    if (f == NULL) {
+    if ((f == NULL) || (f->iun < 0)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
         return(ERR_BAD_HNDL);
     }
-- 
2.43.0


From 8d6c5c8a8da0010dbd0ae8cbf766fb08a873dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 127/205] fix: searching a file that is not a standard file is
 refused

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index ae4e980..d542f52 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1742,6 +1742,11 @@ int c_fstinfx(
 
     f = file_table[index];
 
+    if (! f->cur_info->attr.std) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not a RPN standard file\n",__func__,iun);
+        return(ERR_NO_FILE);
+    }
+
     stdf_entry = (stdf_dir_keys *) calloc(1, sizeof(stdf_dir_keys));
     search_mask = (stdf_dir_keys *) calloc(1, sizeof(stdf_dir_keys));
 
-- 
2.43.0


From 8e2f13a1008dd4b886857d1ba9c7030ef6ddaa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 128/205] fix: linking or unlinking sequential files is refused

---
 src/fstd98/xdf98.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index a6f7f11..ef91837 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1526,6 +1526,10 @@ int c_xdflnk(
     }
 
     f = file_table[index];
+    if (f->xdf_seq) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is not random\n",__func__);
+        return(ERR_BAD_UNIT);
+    }
     for (i=1; i < n; i++) {
         if ((index_fnom = fnom_index(liste[i])) == -1) {
            Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is not connected with fnom\n",__func__);
@@ -1538,6 +1542,10 @@ int c_xdflnk(
         Lib_Log(APP_LIBFST,APP_DEBUG,"%s: xdflink %d avec %d\n",__func__,liste[i-1],liste[i]);
 
         fnext = file_table[indnext];
+        if (fnext->xdf_seq) {
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is not random\n",__func__);
+            return(ERR_BAD_UNIT);
+        }
         f->link = indnext;
         (f->dir_page[f->npages-1])->next_page = fnext->dir_page[0];
         index = indnext;
@@ -2653,6 +2661,10 @@ int c_xdfunl(
             return(ERR_NO_FILE);
         }
         fte = file_table[index];
+        if (fte->xdf_seq) {
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is not random\n",__func__);
+            return(ERR_BAD_UNIT);
+        }
         fte->link = -1;
         (fte->dir_page[fte->npages-1])->next_page = NULL;
     }
-- 
2.43.0


From 70a77261b938baeb4ad832e5f457992d09d2176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 129/205] fix: erasing or editing a record by a handle with
 file number 0 is refused

---
 src/fstd98/fstd98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index d542f52..a23e357 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1443,7 +1443,7 @@ int c_fst_edit_dir_plus(
     }
 
     f = file_table[index];
-    if ((f == NULL) || (f->iun < 0)) {
+    if ((f == NULL) || (f->iun < 0) || (f->cur_info == NULL)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
         return(ERR_BAD_HNDL);
     }
@@ -1588,7 +1588,7 @@ int c_fsteff(
     }
 
     f = file_table[index];
-    if ((f == NULL) || (f->iun < 0)) {
+    if ((f == NULL) || (f->iun < 0) || (f->cur_info == NULL)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
         return(ERR_BAD_HNDL);
     }
-- 
2.43.0


From 5a122152d77439c8d35d023ee0e087e6d6df35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 130/205] fix: a variable is not given or created again as an
 array of another type or rank

---
 src/gmm/gmm_create.tmpl90 |  5 +++--
 src/gmm/gmm_get.tmpl90    | 10 ++--------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 90d8839..fbda302 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -95,10 +95,11 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
             ! HOW SERIOUS AN ERROR IS THIS ?
             return
         endif
-        pp => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
-        consistent = .true.
+        consistent = directory(cur_page)%entry(cur_entry)%data_type == EXTENSION
+        if (consistent) pp => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
         ! check that all dimensions are identical
         do i = 1, DIM
+            if (.not. consistent) exit
             ! Disabled this compiler bug workaround to find out if it's still an issue and removed an undefined external
             ! Work around to prevent the corruption of size(pp) by the pgi9xx optimizer (bug)
             ! call fool_optimizer(size(pp, i))
diff --git a/src/gmm/gmm_get.tmpl90 b/src/gmm/gmm_get.tmpl90
index 8831f05..740d768 100644
--- a/src/gmm/gmm_get.tmpl90
+++ b/src/gmm/gmm_get.tmpl90
@@ -15,7 +15,6 @@ integer function FNCNAME(gmm_get)(iname, p, m)
 #endif
     type(gmm_metadata), optional, intent(out) :: m
 
-    integer :: i, array_rank
     ! name (partially redundant with attributes)
     ! attributes (name in attributes is not used)
     !  integer,intent(inout) :: reqid
@@ -44,19 +43,14 @@ integer function FNCNAME(gmm_get)(iname, p, m)
             ! return a copy of the proper entry
             m = m2
         endif
-        p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
-        do i = 1, 4
-            if (m2%l(i)%n /= 0) then
-                array_rank = i
-            endif
-        enddo
-        if (array_rank /= DIM) then
+        if (directory(cur_page)%entry(cur_entry)%data_type /= EXTENSION) then
             nullify(p)
             if (present(m)) then
                 m = GMM_NULL_METADATA
             endif
             FNCNAME(gmm_get) = GMM_INCONSISTENT_DIMS
         else
+            p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
             FNCNAME(gmm_get) = GMM_OK
         endif
     endif
-- 
2.43.0


From df95d0c1969bf6cd0b6738995ad12ad131a54de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 131/205] fix: gmm_shuffle moves the variables that exist when
 names of the list are missing

---
 src/gmm/rmn_gmm_mod.F90 | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index d7bc0ce..5f3ffc1 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -1258,12 +1258,6 @@ contains
                     ier = gmm_rename(tempname, taglist(2))
                 endif
             case default
-                temp_key = key_list(nkeys)
-                do i = 2, nkeys
-                    key_list(i) = key_list(i-1)
-                enddo
-                key_list(1) = temp_key
-
                 if (key_list(nkeys) /= GMM_KEY_NOT_FOUND) then
                     ier = gmm_rename(taglist(nkeys),tempname)
                 endif
-- 
2.43.0


From 149c1403d916321cb6a54acfd004552f94a9dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 132/205] fix: deleted variables are no longer counted, listed
 or found, and their entries are used again

---
 src/gmm/gmm_create.tmpl90        |  1 +
 src/gmm/gmm_pointer_table.tmpl90 | 13 +++++++++--
 src/gmm/rmn_gmm_mod.F90          | 37 +++++++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index fbda302..2c1a5a1 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -202,6 +202,7 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
 #endif
                   ), stat = ier)
         if (ier /= 0) then
+            directory(cur_page)%entry(cur_entry)%data_type = 0
             FNCNAME(gmm_create) = GMM_ERROR
             return
         endif
diff --git a/src/gmm/gmm_pointer_table.tmpl90 b/src/gmm/gmm_pointer_table.tmpl90
index d10be06..5999889 100644
--- a/src/gmm/gmm_pointer_table.tmpl90
+++ b/src/gmm/gmm_pointer_table.tmpl90
@@ -15,8 +15,8 @@ integer function FNCNAME(gmm_add_table_entry)(p, key)
 #endif
     integer(kind = int64), intent(in) :: key
 
-    FNCNAME(gmm_ptrs)(FNCNAME(gmm_p_table_size_))%p => p
-    FNCNAME(gmm_ptrs)(FNCNAME(gmm_p_table_size_))%key = key
+    FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p => p
+    FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%key = key
     if (gmm_verbose_level == GMM_MSG_DEBUG) then
         write(app_msg,*) 'gmm_add_table_entry: of FNCNAME(gmm_ptrs)', FNCNAME(gmm_p_table_size_)
         call lib_log(APP_LIBGMM,APP_DEBUG,app_msg)
@@ -28,6 +28,15 @@ end function FNCNAME(gmm_add_table_entry)
 integer function FNCNAME(gmm_get_nxt_avail_ptr)()
     implicit none
 
+    integer :: i
+
+    ! use the pointer of a deleted variable if there is one
+    do i = 1, FNCNAME(gmm_p_table_size_)
+        if (.not. associated(FNCNAME(gmm_ptrs)(i)%p)) then
+            FNCNAME(gmm_get_nxt_avail_ptr) = i
+            return
+        endif
+    enddo
     FNCNAME(gmm_p_table_size_) = FNCNAME(gmm_p_table_size_) + 1
     FNCNAME(gmm_get_nxt_avail_ptr) = FNCNAME(gmm_p_table_size_)
 end function FNCNAME(gmm_get_nxt_avail_ptr)
diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 5f3ffc1..34d16df 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -843,6 +843,7 @@ contains
             end select dtype
             directory(cur_page)%entry(cur_entry)%l = GMM_NULL_LAYOUT
             directory(cur_page)%entry(cur_entry)%a = GMM_NULL_ATTRIB
+            directory(cur_page)%entry(cur_entry)%data_type = 0
             gmm_delete = GMM_OK
         endif
     end function gmm_delete
@@ -901,7 +902,7 @@ contains
         cur_page = 1
         cur_entry = 1
         do i = 1, used
-            if (directory(cur_page)%entry(cur_entry)%name == l_name) then
+            if (directory(cur_page)%entry(cur_entry)%data_type /= 0 .and. directory(cur_page)%entry(cur_entry)%name == l_name) then
                 if (present(key)) then
                     key = directory(cur_page)%entry(cur_entry)%a%key
                 endif
@@ -934,6 +935,13 @@ contains
             enddo
         endif
 
+        ! use the entry of a deleted variable if there is one
+        do i = 1, used
+            cur_page = 1 + (i - 1) / PAGE_SIZE
+            cur_entry = 1 + mod(i - 1, PAGE_SIZE)
+            if (directory(cur_page)%entry(cur_entry)%data_type == 0) return
+        enddo
+
         used = used + 1
         last_entry = last_entry + 1
         ! Need new directory page ?
@@ -954,6 +962,8 @@ contains
                 directory(table_size)%entry(i)%l = GMM_NULL_LAYOUT
                 ! Null attributes
                 directory(table_size)%entry(i)%a = GMM_NULL_ATTRIB
+                ! Not in use
+                directory(table_size)%entry(i)%data_type = 0
             enddo
             cur_entry = 1
         else
@@ -987,7 +997,7 @@ contains
 
         l_page = 1
         l_entry = 1
-        write(app_msg,*) 'gmm_dumpinfo: Number of variables in use is', used
+        write(app_msg,*) 'gmm_dumpinfo: Number of variables in use is', gmm_nkeys()
         call lib_log(APP_LIBGMM,APP_ALWAYS,app_msg)
         do i = 1, used
             dims = directory(l_page)%entry(l_entry)%l
@@ -996,7 +1006,9 @@ contains
                     (dims(3)%high - dims(3)%low +1) * &
                     (dims(4)%high - dims(4)%low +1) )
             ptraddr = transfer(directory(l_page)%entry(l_entry)%array_addr, ptraddr)
-            if (present(fldstat)) then
+            if (directory(l_page)%entry(l_entry)%data_type == 0) then
+                continue
+            else if (present(fldstat)) then
                 print *, 'Appel a statfld a ecrire, fldstat=', fldstat
                 print '(a,a,a,i10)', &
                     'Name=', directory(l_page)%entry(l_entry)%name, &
@@ -1096,7 +1108,12 @@ contains
     integer function gmm_nkeys()
         implicit none
 
-        gmm_nkeys = used
+        integer :: i
+
+        gmm_nkeys = 0
+        do i = 1, used
+            if (directory(1 + (i - 1) / PAGE_SIZE)%entry(1 + mod(i - 1, PAGE_SIZE))%data_type /= 0) gmm_nkeys = gmm_nkeys + 1
+        enddo
     end function gmm_nkeys
 
 
@@ -1113,7 +1130,7 @@ contains
         gmm_keys = -1
 
         maxkeys = size(taglist)
-        if (used > maxkeys) then
+        if (gmm_nkeys() > maxkeys) then
             return
         endif
         cur_page = 1
@@ -1122,7 +1139,8 @@ contains
             strlen_pattern = len_trim(pattern)
             gmm_keys = 0
             do i = 1, used
-                if (directory(cur_page)%entry(cur_entry)%name(1:strlen_pattern) == pattern(1:strlen_pattern)) then
+                if (directory(cur_page)%entry(cur_entry)%data_type /= 0 .and. &
+                    directory(cur_page)%entry(cur_entry)%name(1:strlen_pattern) == pattern(1:strlen_pattern)) then
                     taglist(nkeys+1) = directory(cur_page)%entry(cur_entry)%name
                     nkeys = nkeys + 1
                 endif
@@ -1135,14 +1153,17 @@ contains
             gmm_keys = nkeys
         else
             do i = 1, used
-                taglist(i) = directory(cur_page)%entry(cur_entry)%name
+                if (directory(cur_page)%entry(cur_entry)%data_type /= 0) then
+                    nkeys = nkeys + 1
+                    taglist(nkeys) = directory(cur_page)%entry(cur_entry)%name
+                endif
                 cur_entry = cur_entry + 1
                 if (cur_entry > PAGE_SIZE) then
                     cur_page = cur_page + 1
                     cur_entry = 1
                 endif
             enddo
-            gmm_keys = used
+            gmm_keys = nkeys
         endif
     end function gmm_keys
 
-- 
2.43.0


From 85540f49ad4c52f476630b556d83c564bf7a17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 133/205] fix: gmm_keys does not compare a long pattern with
 what follows the names

---
 src/gmm/rmn_gmm_mod.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 34d16df..3f3b2f1 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -1138,6 +1138,7 @@ contains
         if (present(pattern)) then
             strlen_pattern = len_trim(pattern)
             gmm_keys = 0
+            if (strlen_pattern > GMM_MAXNAMELENGTH) return
             do i = 1, used
                 if (directory(cur_page)%entry(cur_entry)%data_type /= 0 .and. &
                     directory(cur_page)%entry(cur_entry)%name(1:strlen_pattern) == pattern(1:strlen_pattern)) then
-- 
2.43.0


From 018e07e6292c86b7bce7c83d76d440b680985610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 134/205] fix: the address of an array given to gmm_create is
 kept

---
 src/gmm/gmm_create.tmpl90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 2c1a5a1..5e7422b 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -206,8 +206,8 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
             FNCNAME(gmm_create) = GMM_ERROR
             return
         endif
-        directory(cur_page)%entry(cur_entry)%array_addr = c_loc(p)
     endif
+    directory(cur_page)%entry(cur_entry)%array_addr = c_loc(p)
     ier = FNCNAME(gmm_add_table_entry)(p, key)
     field_meta%l = directory(cur_page)%entry(cur_entry)%l
     field_meta%a = directory(cur_page)%entry(cur_entry)%a
-- 
2.43.0


From 27f7501926255000ddb93d8bed69f63b79f1f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 135/205] fix: writing a restart file without variables empties
 a restart file that exists

---
 src/gmm/rmn_gmm_mod.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 3f3b2f1..2449597 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -749,6 +749,9 @@ contains
                     return
                 endif
             endif
+            ! nothing of a previous restart file must remain
+            endfile(file_unit)
+            rewind(file_unit)
             call gmm_checkpoint_184(.false.)
             call gmm_checkpoint_144(.false.)
             call gmm_checkpoint_284(.false.)
-- 
2.43.0


From dff281c79d4f80e90984c66d49fd8dc0996e1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 136/205] fix: the choice of the subgrid leaves the options as
 they were and does not depend on them

---
 src/interp/ezyymint.c | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index 8b4c43c..4efa490 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -26,12 +26,11 @@
 
 int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *maskout, float *dlat, float *dlon, float *yinlat, float *yinlon, int32_t *yyincount, float *yanlat, float *yanlon, int32_t *yyancount)
 {
-  int32_t ivalue,icode,i,j,k,yin_mgid;
+  int32_t icode,i,j,k,yin_mgid;
   int32_t gdrow_in, gdcol_in, mask_gdrow, mask_gdcol;
   int32_t yincount,yancount,yni,ynj;
-  float *yin_fld, global_extrap_value, local_extrap_value;
-  char interp_degree[32],extrap_degree[32],extrap_value[32],local_val[32];
-  char global_interp_degree[32],global_extrap_degree[32];
+  float *yin_fld;
+  _groptions global_options;
   
   c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
   yin_mgid=Grille[gdrow_in][gdcol_in].mymaskgrid;
@@ -42,33 +41,15 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   yin_fld = (float *) malloc(yni*ynj*sizeof(float));
   memset(yin_fld,0.0,yni*ynj*sizeof(float));
   /*get original options*/
-  strcpy(interp_degree,"interp_degree");
-  icode = c_ezgetopt(interp_degree,global_interp_degree);
-  strcpy(extrap_degree,"extrap_degree");
-  strcpy(extrap_value,"extrap_value");
-  icode = c_ezgetopt(extrap_degree,global_extrap_degree);
-  ivalue = 0;
-  if (0 == strcmp(global_extrap_degree,"value"))
-    {
-    icode = c_ezgetval(extrap_value,&global_extrap_value);
-    ivalue = 1;
-    }
-  strcpy(local_val,"nearest");
-  icode = c_ezsetopt(interp_degree, local_val);
-
-  local_extrap_value = 1.0;
-  icode = c_ezsetval(extrap_value,local_extrap_value);
-  strcpy(local_val,"value");
-  icode = c_ezsetopt(extrap_degree, local_val);
+  global_options = groptions;
+  groptions.degre_interp = VOISIN;
+  groptions.degre_extrap = VALEUR;
+  groptions.valeur_extrap = 1.0;
+  groptions.polar_correction = 1;
   icode = c_ezdefset(gdout,yin_mgid);
   icode = c_ezsint_orig(maskout,yin_fld);
   /*masking is done,reset original interp options*/
-  icode = c_ezsetopt(interp_degree, global_interp_degree);
-    if (ivalue == 1)
-    {
-    icode = c_ezsetval(extrap_value, global_extrap_value);
-    }
-  icode = c_ezsetopt(extrap_degree, global_extrap_degree);
+  groptions = global_options;
   free(yin_fld);
 
 /* now create the destination grids */
-- 
2.43.0


From d34c020eae9600c017305d771991c6bae95f0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 137/205] fix: interpolation to a Yin-Yang grid reports a
 refused extrapolation

---
 src/interp/ezyysint.c  | 3 +++
 src/interp/ezyyuvint.c | 3 +++
 src/interp/ezyywdint.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/interp/ezyysint.c b/src/interp/ezyysint.c
index 6b35449..d71d348 100644
--- a/src/interp/ezyysint.c
+++ b/src/interp/ezyysint.c
@@ -88,6 +88,9 @@ int32_t c_ezyysint(float *zout, float *zin,int32_t gdout,int32_t gdin) {
         ierc1 = c_ezsint_orig(zout, zin);
         icode = c_ezdefset(yan_gdout, gdin);
         ierc2 = c_ezsint_orig(&zout[ni * nj], zin);
+        if (ierc1 < 0 || ierc2 < 0) {
+            return -1;
+        }
         if (ierc1 == 2 || ierc2 == 2) {
             ierc = 2;
         }
diff --git a/src/interp/ezyyuvint.c b/src/interp/ezyyuvint.c
index cbf7f23..d87e442 100644
--- a/src/interp/ezyyuvint.c
+++ b/src/interp/ezyyuvint.c
@@ -98,6 +98,9 @@ int32_t c_ezyyuvint(float *uuout, float *vvout, float *uuin,  float *vvin, int32
     icode = c_ezdefset(yan_gdout,gdin);
     ierc2 = c_ezuvint_orig(&uuout[ni*nj],
                            &vvout[ni*nj],uuin,vvin);
+    if (ierc1 < 0 || ierc2 < 0) {
+        return -1;
+    }
     if (ierc1 == 2 || ierc2 == 2)
        {
         ierc=2;
diff --git a/src/interp/ezyywdint.c b/src/interp/ezyywdint.c
index 856a99c..761a19e 100644
--- a/src/interp/ezyywdint.c
+++ b/src/interp/ezyywdint.c
@@ -96,6 +96,9 @@ int32_t c_ezyywdint(float *uuout, float *vvout, float *uuin,  float *vvin, int32
     icode = c_ezdefset(yan_gdout,gdin);
     ierc2 = c_ezwdint_orig(&uuout[(ni*nj)],
                            &vvout[(ni*nj)],uuin,vvin);
+    if (ierc1 < 0 || ierc2 < 0) {
+        return -1;
+    }
     if (ierc1 == 2 || ierc2 == 2)
        {
         ierc=2;
-- 
2.43.0


From a12e10a76ce30b35652d3aec03b5075b8e342ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 138/205] fix: positions in a Yin-Yang grid are compared with
 the core of the subgrids

---
 src/interp/gdxyfll.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/interp/gdxyfll.c b/src/interp/gdxyfll.c
index b93008b..2c63ea9 100644
--- a/src/interp/gdxyfll.c
+++ b/src/interp/gdxyfll.c
@@ -189,17 +189,18 @@ int32_t c_gdxyfll(int32_t gdid, float *x, float *y, float *lat, float *lon, int3
                 x[j] = xyin[j];
                 y[j] = yyin[j];
             }
-            if (xyan[j] >= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridi0 &&
-                xyan[j] <= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridi1 &&
-                yyan[j] >= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridj0 &&
-                yyan[j] <= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridj1) {
+            // (the bounds of the mask are indices from 0, the positions start from 1)
+            if (xyan[j] >= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridi0 + 1 &&
+                xyan[j] <= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridi1 + 1 &&
+                yyan[j] >= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridj0 + 1 &&
+                yyan[j] <= Grille[yan_gdrow_id][yan_gdcol_id].mymaskgridj1 + 1) {
                     x[j] = xyan[j];
                     y[j] = yyan[j] + maxnj;
             }
-            if (xyin[j] >= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridi0 &&
-                xyin[j] <= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridi1 &&
-                yyin[j] >= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridj0 &&
-                yyin[j] <= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridj1) {
+            if (xyin[j] >= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridi0 + 1 &&
+                xyin[j] <= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridi1 + 1 &&
+                yyin[j] >= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridj0 + 1 &&
+                yyin[j] <= Grille[yin_gdrow_id][yin_gdcol_id].mymaskgridj1 + 1) {
                     x[j] = xyin[j];
                     y[j] = yyin[j];
             }
-- 
2.43.0


From a965c6b4c61673fecd53bc887d6144d3427941fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 139/205] fix: the points that Yin does not hold are
 interpolated from Yang

---
 src/interp/ezyymint.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index 4efa490..f2b2add 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -29,7 +29,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   int32_t icode,i,j,k,yin_mgid;
   int32_t gdrow_in, gdcol_in, mask_gdrow, mask_gdcol;
   int32_t yincount,yancount,yni,ynj;
-  float *yin_fld;
+  float *yin_fld, *x, *y;
   _groptions global_options;
   
   c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
@@ -52,6 +52,20 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   groptions = global_options;
   free(yin_fld);
 
+  /* the points beyond the last rows of Yin come from Yang (the mask holds half a cell more than Yin) */
+  x = (float *) malloc(ni*nj*sizeof(float));
+  y = (float *) malloc(ni*nj*sizeof(float));
+  icode = c_gdxyfll_orig(gdin, x, y, dlat, dlon, ni*nj);
+  for (k=0; k < ni*nj; k++)
+    {
+    if (x[k] < 1 || x[k] > Grille[gdrow_in][gdcol_in].ni || y[k] < 1 || y[k] > Grille[gdrow_in][gdcol_in].nj)
+       {
+       maskout[k] = 1.0;
+       }
+    }
+  free(x);
+  free(y);
+
 /* now create the destination grids */
   yancount=0;
   yincount=0;
-- 
2.43.0


From c70beee049c6504c76cd303c2291ae5c5b734a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 140/205] fix: a Yin-Yang grid is identified by its subgrids,
 whose axes are not read beyond their end

---
 src/interp/ez_findgrid.c      | 16 ++++++++++++++--
 src/interp/ezgdef_supergrid.c | 18 +++++-------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/interp/ez_findgrid.c b/src/interp/ez_findgrid.c
index 01af5cd..abd763e 100644
--- a/src/interp/ez_findgrid.c
+++ b/src/interp/ez_findgrid.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <string.h>
 #include "ez_funcdef.h"
 
 #ifdef MUTEX
@@ -31,7 +32,18 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
 #endif
 
     while (found == -1 && end_reached == -1) {
-        if (gr->grtyp[0] == 'U') {
+        if (gr->grtyp[0] == 'U' && gr->subgrid != NULL) {
+            // Defined by its subgrids
+            if (refgd->grtyp[0] == 'U' && refgd->ni_ax == 0 &&
+                gr->grref[0] == refgd->grref[0] &&
+                gr->ni == refgd->ni && gr->nj == refgd->nj &&
+                gr->nsubgrids == refgd->nsubgrids &&
+                memcmp(gr->subgrid, refgd->subgrid, gr->nsubgrids * sizeof(int32_t)) == 0) {
+                    found = 1;
+                    index_found = refgd->index;
+                    break;
+            }
+        } else if (gr->grtyp[0] == 'U') {
             if (gr->grtyp[0] == refgd->grtyp[0] &&
                 gr->grref[0] == refgd->grref[0] &&
                 gr->ni_ax == refgd->ni_ax &&  gr->nj_ay == refgd->nj_ay &&
@@ -47,7 +59,7 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
         // printf("gr->grtyp=%c  ni=%d nj= %d\n",gr->grtyp[0],gr->ni,gr->nj);
         // printf("refgd->grtyp=%c  ni=%d nj= %d\n",refgd->grtyp[0],refgd->ni,refgd->nj);
 
-        if (gr->grtyp[0] == refgd->grtyp[0] &&
+        if (gr->grtyp[0] == refgd->grtyp[0] && (gr->grtyp[0] != 'U' || gr->subgrid == NULL) &&
             gr->ni == refgd->ni &&  gr->nj == refgd->nj &&
             gr->fst.ig[IG1] == refgd->fst.ig[IG1] && gr->fst.ig[IG2] == refgd->fst.ig[IG2] &&
             gr->fst.ig[IG3] == refgd->fst.ig[IG3] && gr->fst.ig[IG4] == refgd->fst.ig[IG4]) {
diff --git a/src/interp/ezgdef_supergrid.c b/src/interp/ezgdef_supergrid.c
index 03da0da..6ad5b37 100644
--- a/src/interp/ezgdef_supergrid.c
+++ b/src/interp/ezgdef_supergrid.c
@@ -57,8 +57,6 @@ int32_t c_ezgdef_supergrid(int32_t ni, int32_t nj, char *grtyp, char *grref, int
     strcpy(newgr.fst.nomvarx, "^>  ");
     strcpy(newgr.fst.nomvary, "^>  ");
 
-    float * ax = NULL;
-    float * ay = NULL;
     int32_t sub_gdrow_id, sub_gdcol_id;
     if (vercode == 1) {
         int32_t sub_gdid = subgrid[0];
@@ -75,11 +73,6 @@ int32_t c_ezgdef_supergrid(int32_t ni, int32_t nj, char *grtyp, char *grref, int
         newgr.ni = ni;
         newgr.nj = nj;
         newgr.idx_last_gdin = -1;
-        /* create tictac arrays to add uniqueness in supergrid*/
-        ax = (float *) malloc(newgr.ni*sizeof(float));
-        ay = (float *) malloc(newgr.nj*sizeof(float));
-        memcpy(ax,Grille[sub_gdrow_id][sub_gdcol_id].ax,newgr.ni*sizeof(float));
-        memcpy(ay,Grille[sub_gdrow_id][sub_gdcol_id].ay,newgr.nj*sizeof(float));
         newgr.fst.ip1 = Grille[sub_gdrow_id][sub_gdcol_id].fst.ip1;
         newgr.fst.ip2 = Grille[sub_gdrow_id][sub_gdcol_id].fst.ip2;
         newgr.fst.ip3 = Grille[sub_gdrow_id][sub_gdcol_id].fst.ip3;
@@ -99,12 +92,11 @@ int32_t c_ezgdef_supergrid(int32_t ni, int32_t nj, char *grtyp, char *grref, int
         newgr.nsubgrids = nsubgrids;
      }
     int32_t newgrsize = sizeof(_Grille);
-    unsigned int grid_crc = ez_calc_crc((int *)&newgr, &newgrsize, ax, ay, newgr.ni, newgr.nj);
-
-    free(ax);
-    ax = NULL;
-    free(ay);
-    ay = NULL;
+    /* use the axes of the first subgrid to add uniqueness in supergrid*/
+    unsigned int grid_crc = ez_calc_crc((int *)&newgr, &newgrsize,
+        Grille[sub_gdrow_id][sub_gdcol_id].ax, Grille[sub_gdrow_id][sub_gdcol_id].ay,
+        Grille[sub_gdrow_id][sub_gdcol_id].ni, Grille[sub_gdrow_id][sub_gdcol_id].nj);
+    newgr.subgrid = subgrid;
     int32_t grid_index = grid_crc % primes_sq[cur_log_chunk];
     int32_t gdid;
     if (gr_list[grid_index] == NULL) {
-- 
2.43.0


From 4f4059f70ebbdb8fd14ef54b26eef15dd8283e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 141/205] fix: unpacking reads no word beyond the last token

---
 include/bitPacking.h       | 20 +++++++-------------
 src/packers/float_packer.c |  2 +-
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/bitPacking.h b/include/bitPacking.h
index 83b2fa8..97fc03d 100644
--- a/include/bitPacking.h
+++ b/include/bitPacking.h
@@ -57,6 +57,12 @@ typedef union {
  *                                                                           *
  ****************************************************************************/
 #define extract( packedToken, packedWordPtr, wordSize, bitSizeOfPackedToken, packedWord, bitPackInWord) {\
+    /* The next word is fetched when it is needed, never beyond the last token */\
+    if ( bitPackInWord == 0 ) {\
+        packedWordPtr++;\
+        packedWord = *packedWordPtr;\
+        bitPackInWord = wordSize;\
+    };\
     /* Obtain the integer representation */\
     if (  bitPackInWord >= bitSizeOfPackedToken ) {\
         packedToken = (packedWord >> ( wordSize - bitSizeOfPackedToken ) );\
@@ -70,12 +76,6 @@ typedef union {
         packedWord <<= ( bitSizeOfPackedToken - bitPackInWord );\
         bitPackInWord = wordSize - (bitSizeOfPackedToken - bitPackInWord);\
     };\
-    /* Special case */\
-    if ( bitPackInWord == 0 ) {\
-        packedWordPtr++;\
-        packedWord = *packedWordPtr;\
-        bitPackInWord = wordSize;\
-    };\
 }\
 
 
@@ -92,7 +92,7 @@ typedef union {
  *                                                                           *
  ****************************************************************************/
 #define discard(packedWordPtr, wordSize, discardBit, packedWord, bitPackInWord) {\
-    if ( bitPackInWord > discardBit ) {\
+    if ( bitPackInWord >= discardBit ) {\
         packedWord <<= discardBit;\
         bitPackInWord -= discardBit;\
     } else {\
@@ -101,12 +101,6 @@ typedef union {
         packedWord <<= ( discardBit - bitPackInWord);\
         bitPackInWord = wordSize - ( discardBit - bitPackInWord );\
     };\
-    /* Special case */\
-    if ( bitPackInWord == 0 ) {\
-        packedWordPtr++;\
-        packedWord = *packedWordPtr;\
-        bitPackInWord = wordSize;\
-    };\
 }\
 
 
diff --git a/src/packers/float_packer.c b/src/packers/float_packer.c
index d47fbec..e4b5f58 100644
--- a/src/packers/float_packer.c
+++ b/src/packers/float_packer.c
@@ -105,7 +105,7 @@ int32_t float_unpacker_1(
         /* token must be in upper part of 32 bit word */
         accu = accu << 16;
         /* new 32 bit word every other trip in loop */
-        if (fetch) accu = *stream++;
+        if (fetch && nbVals > 0) accu = *stream++;
         /* toggle fetch */
         fetch = fetch ^ 1;
     }
-- 
2.43.0


From 480f4c755816edad706e607528dd30ba7c36eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 142/205] fix: the headers of packed integers are read in the
 byte order of the machine

---
 src/packers/compact_integer.c | 1 +
 src/packers/compact_rle.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/packers/compact_integer.c b/src/packers/compact_integer.c
index 61e3439..46b9751 100644
--- a/src/packers/compact_integer.c
+++ b/src/packers/compact_integer.c
@@ -22,6 +22,7 @@
 #include <stdint.h>
 #include <stdlib.h>
 
+#include <rmn/rpnmacros.h>
 #include <bitPacking.h>
 
 #include <App.h>
diff --git a/src/packers/compact_rle.c b/src/packers/compact_rle.c
index 4ca5f0b..b9aa2f0 100644
--- a/src/packers/compact_rle.c
+++ b/src/packers/compact_rle.c
@@ -21,6 +21,7 @@
 
 #include <stdio.h>
 #include <stdint.h>
+#include <rmn/rpnmacros.h>
 #include <bitPacking.h>
 
 #include <App.h>
-- 
2.43.0


From 21d169efd4786cf193e530d3ac6517a8c60f99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 143/205] fix: an array of equal integers packed with the token
 size found is unpacked

---
 src/packers/compact_integer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/packers/compact_integer.c b/src/packers/compact_integer.c
index 46b9751..3904659 100644
--- a/src/packers/compact_integer.c
+++ b/src/packers/compact_integer.c
@@ -270,8 +270,13 @@
       {                                                                                   \
         for ( i = 0; i < intCount*stride; i+=stride)                                      \
           {                                                                               \
-            extract(packInt, arrayPtr, wordSize, significantBit,                          \
-                    currentWord, bitPackInFirstWord);                                     \
+            /* no bits at all when every element is equal to the minimum */               \
+            packInt = 0;                                                                  \
+            if ( significantBit > 0 )                                                     \
+              {                                                                           \
+                extract(packInt, arrayPtr, wordSize, significantBit,                      \
+                        currentWord, bitPackInFirstWord);                                 \
+              }                                                                           \
                                                                                           \
             /*      truncate extra bit        */                                          \
             if ( inSignificantBit > 0 )                                                   \
-- 
2.43.0


From 8abbde864f6b9973c6d718810a2efbf2bf708ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 144/205] fix: the mask of the tokens follows the token size
 found

---
 src/packers/compact_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/packers/compact_integer.c b/src/packers/compact_integer.c
index 3904659..cb81e1b 100644
--- a/src/packers/compact_integer.c
+++ b/src/packers/compact_integer.c
@@ -222,6 +222,8 @@
            bitRequiredForRange--;                                        \
          };                                                              \
      };                                                                  \
+   cleanupMask = ( bitSizeOfPackedToken > 0 ) ?                          \
+     ((uint32_t)(~0)>>(wordSize-bitSizeOfPackedToken)) : 0;              \
                                                                          \
    /*   construct pack header */                                         \
    packHeader[0] = 0xFD000000 | (shiftRequired <<6)|bitSizeOfPackedToken;\
-- 
2.43.0


From bb1c7633744f50a1ff4f4a4ca4e5bf0264525929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 145/205] fix: the token size found for signed integers holds
 the most negative one

---
 src/packers/compact_integer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/packers/compact_integer.c b/src/packers/compact_integer.c
index cb81e1b..1b7fb7c 100644
--- a/src/packers/compact_integer.c
+++ b/src/packers/compact_integer.c
@@ -21,6 +21,7 @@
 #include <stdio.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include <rmn/rpnmacros.h>
 #include <bitPacking.h>
@@ -464,8 +465,9 @@ int  compact_integer( void *unpackedArrayOfInt, void *packedHeader, void *packed
 
                 FindMinMax(arrayOfSignedUnpacked, minSignedInteger, maxSignedInteger);
 
-                maxSpan    = ( abs(minSignedInteger) > maxSignedInteger ) ? abs(minSignedInteger) :
-                             maxSignedInteger;
+                /* the magnitude of the most negative integer is not one, and needs the same bits as the largest */
+                int magnitude = ( minSignedInteger == INT_MIN ) ? INT_MAX : abs(minSignedInteger);
+                maxSpan    = ( magnitude > maxSignedInteger ) ? magnitude : maxSignedInteger;
               }
             else if (  opCode == 1 )
               {
-- 
2.43.0


From cf22d76cf514e8a92ecd63c36153efe9173907e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 146/205] fix: shorts and bytes packed with a header are
 relative to their minimum

---
 src/packers/compact_integer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packers/compact_integer.c b/src/packers/compact_integer.c
index 1b7fb7c..f539c47 100644
--- a/src/packers/compact_integer.c
+++ b/src/packers/compact_integer.c
@@ -796,7 +796,7 @@ int  compact_short( void *unpackedArrayOfShort, void *packedHeader, void *packed
     **********************************************/
    if ( opCode == 5 )
      {
-       Pack(arrayOfUnsignedShort, 0);
+       Pack(arrayOfUnsignedShort, minUnsignedInteger);
      }
    /***********************************************
     *                                             *
@@ -806,7 +806,7 @@ int  compact_short( void *unpackedArrayOfShort, void *packedHeader, void *packed
    else if ( opCode == 6 )
      {
        Unpack(arrayOfUnsignedShort, ShiftIntended, tokenSize,
-              0, intCount);
+              minUnsigned, intCount);
      }
    else
      {
@@ -1034,7 +1034,7 @@ int  compact_char( void *unpackedArrayOfBytes, void *packedHeader, void *packedA
     **********************************************/
    if ( opCode == 9 )
      {
-       Pack(arrayOfUnsignedChar, 0);
+       Pack(arrayOfUnsignedChar, minUnsignedInteger);
      }
    /***********************************************
     *                                             *
@@ -1044,7 +1044,7 @@ int  compact_char( void *unpackedArrayOfBytes, void *packedHeader, void *packedA
    else if ( opCode == 10 )
      {
        Unpack(arrayOfUnsignedChar, ShiftIntended, tokenSize,
-              0, intCount);
+              minUnsigned, intCount);
      }
    else
      {
-- 
2.43.0


From acc05e437e524b380b606ba920f1cc7e70721cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 147/205] fix: packing integers in place at an offset stays
 within the work array and keeps the other bits

---
 src/packers/pak.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/packers/pak.c b/src/packers/pak.c
index 35cab87..9d3729b 100644
--- a/src/packers/pak.c
+++ b/src/packers/pak.c
@@ -100,13 +100,15 @@ void f77name(iipak)(
 
     if ( xunpacked == xpacked ) {
         // In place
-        int lengthOfPackedArray = ((ninj * lnBits) + 31) / 32;
-        if (packHeaderUsed) lengthOfPackedArray += 4;
+        int lengthOfPackedArray = ((packHeaderUsed ? 128 : loffset) + (ninj * lnBits) + 31) / 32;
 
         uint32_t *tempPackedArray = ( uint32_t *) malloc(lengthOfPackedArray*sizeof(uint32_t));
 
         if ( (oper == 1) || (oper == 3) ) {
-            // Pack
+            // Pack, the bits that hold no token keep their values
+            for (int i = 0; i < lengthOfPackedArray; i++) {
+                tempPackedArray[i] = ptrXpacked[i];
+            }
             if ( packHeaderUsed ) {
                 compact_integer(xunpacked, tempPackedArray, tempPackedArray, ninj, lnBits, 128, stride, oper);
             } else {
-- 
2.43.0


From 1818e5354bab41eb530230f3fd658fa7aed7ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 148/205] fix: modes 3 and 4 of xxpak pack and unpack doubles,
 as documented

---
 src/packers/pak.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/packers/pak.c b/src/packers/pak.c
index 9d3729b..b9128c7 100644
--- a/src/packers/pak.c
+++ b/src/packers/pak.c
@@ -185,8 +185,9 @@ void f77name(xxpak) (
     }
 
     // determine function pointer and make oper uniform for pack and unpack
-    PackFunctionPointer pfp = oper > 3 ? (PackFunctionPointer) &compact_double : (PackFunctionPointer) &compact_float;
-    oper = oper > 3 ? oper - 4 : oper;
+    // modes 5 and 6 are those of older callers for doubles
+    PackFunctionPointer pfp = oper > 2 ? (PackFunctionPointer) &compact_double : (PackFunctionPointer) &compact_float;
+    oper = oper > 4 ? oper - 4 : oper > 2 ? oper - 2 : oper;
 
     uint32_t *ptrXpacked = xpacked;
 
-- 
2.43.0


From 20da7d5ee3230b7377380d22601de99c57357ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 149/205] fix: packing an array of missing values only does not
 search beyond its end

---
 src/packers/compact.tmplc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f5b3f9a..fe397da 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -186,11 +186,12 @@ void *compact_FLOAT_TYPE(
             // Existence of missing value indicated
             /* initialize min and max */
             int i = 0 ;
-            while ( arrayOfFloat[i] == missingValueTag ) {
+            while ( i < floatCount * stride && arrayOfFloat[i] == missingValueTag ) {
                 i += stride;
             }
-            maxFloat = arrayOfFloat[i];
-            minFloat = arrayOfFloat[i];
+            /* the range is empty when every value is missing */
+            maxFloat = i < floatCount * stride ? arrayOfFloat[i] : 0.0;
+            minFloat = maxFloat;
             /* traverse the array to search the actual min and max */
             for (int i = stride; i < floatCount * stride; i += stride) {
                 if ( arrayOfFloat[i] == missingValueTag ) {
-- 
2.43.0


From 3a699e7118f1757f018c82a15c235c249749c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 150/205] fix: the missing value of packed doubles is compared
 as a double

---
 src/packers/compact.tmplc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index fe397da..7952e30 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -103,7 +103,7 @@ void *compact_FLOAT_TYPE(
     int currentSlot;
     uint32_t packInt;
     int significantBit, inSignificantBit;
-    float missingValueTag = *((FLOAT_TYPE *)missingTag);
+    FLOAT_TYPE missingValueTag = *((FLOAT_TYPE *)missingTag);
     uint32_t missingToken;
     int tempExpo;
     int tokenSize;
-- 
2.43.0


From 26685831b06ade1e1944fba8cd0e9af52edab138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 151/205] fix: run-length data are unpacked from their header
 alone

---
 src/packers/compact_rle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packers/compact_rle.c b/src/packers/compact_rle.c
index b9aa2f0..33c2600 100644
--- a/src/packers/compact_rle.c
+++ b/src/packers/compact_rle.c
@@ -96,7 +96,8 @@ int  compact_rle(
     int repeatCount;
 
 
-    if ( bitSizeOfPackedToken < 3 ) {
+    // Unpacking takes the token size from the header
+    if ( opCode == 1 && bitSizeOfPackedToken < 3 ) {
         return 0;
     }
 
-- 
2.43.0


From a25ed68bfe12f8584a72a6fb85bf4db143ec9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 152/205] fix: run-length packing of values that need every
 token

---
 src/packers/compact_rle.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/packers/compact_rle.c b/src/packers/compact_rle.c
index 33c2600..670597f 100644
--- a/src/packers/compact_rle.c
+++ b/src/packers/compact_rle.c
@@ -138,6 +138,8 @@ int  compact_rle(
         }
         maxRange = maxInteger - minInteger;
         maxRepeatPerToken = powerOf2s[bitSizeOfPackedToken] - 1 - maxRange;
+        // Values that need every token leave none to say that a value is repeated
+        const int canRepeat = maxRepeatPerToken > 1;
 
         lastPackBit = off_set;
         spaceInLastWord =  wordSize - ( lastPackBit % wordSize );
@@ -159,7 +161,7 @@ int  compact_rle(
             currentToken = arrayOfUnpacked[i] - minInteger;
 
             // Construct packing info
-            if ( currentToken != previousToken ) {
+            if ( currentToken != previousToken || ! canRepeat ) {
                 // New token encountered
                 if (previousTokenCount == 1) {
                     stuff(currentToken, arrayPosition, wordSize, bitSizeOfPackedToken, lastWordShifted, spaceInLastWord);
@@ -192,7 +194,7 @@ int  compact_rle(
 
         // Handle the last token
         currentToken = arrayOfUnpacked[lastTokenPosition] - minInteger;
-        if ( currentToken != previousToken ){
+        if ( currentToken != previousToken || ! canRepeat ){
             // New token
             stuff(currentToken, arrayPosition, wordSize, bitSizeOfPackedToken, lastWordShifted, spaceInLastWord);
         } else {
-- 
2.43.0


From d1bd17b1358148fda6091011e075fde7781cb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 153/205] fix: run-length packing keeps a run that ends just
 before the last value

---
 src/packers/compact_rle.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packers/compact_rle.c b/src/packers/compact_rle.c
index 670597f..cbe4873 100644
--- a/src/packers/compact_rle.c
+++ b/src/packers/compact_rle.c
@@ -195,7 +195,12 @@ int  compact_rle(
         // Handle the last token
         currentToken = arrayOfUnpacked[lastTokenPosition] - minInteger;
         if ( currentToken != previousToken || ! canRepeat ){
-            // New token
+            // New token, after what was still to be said of the previous one
+            if ( previousTokenCount > 1 ) {
+                tempInt = previousTokenCount == 2 ? previousToken : maxRange + previousTokenCount;
+                stuff(tempInt, arrayPosition, wordSize, bitSizeOfPackedToken, lastWordShifted, spaceInLastWord);
+                totalPackedElementCount++;
+            }
             stuff(currentToken, arrayPosition, wordSize, bitSizeOfPackedToken, lastWordShifted, spaceInLastWord);
         } else {
             previousTokenCount++;
-- 
2.43.0


From 67af6ae99e1d2d688b1dacc7f129f25573a92405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:55 +0000
Subject: [PATCH 154/205] fix: unpackWrapper reads floats packed with the 120
 bit header

---
 src/packers/unpackWrapper.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/packers/unpackWrapper.c b/src/packers/unpackWrapper.c
index 672edfd..38c4090 100644
--- a/src/packers/unpackWrapper.c
+++ b/src/packers/unpackWrapper.c
@@ -44,10 +44,13 @@ void unpackWrapper(
     uint32_t *packHeader = (uint32_t *)packedHeader;
     uint32_t headerType = packHeader[0] >> 24;
 
-    if (( headerType == 0x0000007f ) || ( headerType == 0x000000ff )) {
+    if (( headerType == 0x0000007f ) || ( headerType == 0x0000007e )) {
+        // Floating point with a 120 bit header that holds 20 bits of the count, without or with missing values
+        compact_float(unpackedArray, packedHeader, packedArray, packHeader[0] & 0xfffff, -1, 120, stride, 2, headerType == 0x0000007e, missingValueTag);
+    } else if ( headerType == 0x000000ff ) {
         // Floating point, without missing value
         compact_float(unpackedArray, packedHeader, packedArray, -1, -1, 128, stride, 2, 0, missingValueTag);
-    } else if (( headerType == 0x0000007e ) || ( headerType == 0x000000fe )) {
+    } else if ( headerType == 0x000000fe ) {
         // Floating point, with missing value
         compact_float(unpackedArray, packedHeader, packedArray, -1, -1, 128, stride, 2, 1, missingValueTag);
     } else if ( headerType == 0x000000fb ) {
-- 
2.43.0


From 7759f28dead1a6f12d79f3b682782aa66411adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 155/205] fix: the general polar-stereographic code holds
 orientations below -180 and above 540 degrees

---
 src/base/xgaig.f90 | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/base/xgaig.f90 b/src/base/xgaig.f90
index 189d8cb..c209fb6 100644
--- a/src/base/xgaig.f90
+++ b/src/base/xgaig.f90
@@ -76,11 +76,7 @@
                IG3 = 0
                IG1 = NINT(XG3*.01)
             ENDIF
-            IG2 = NINT(XG4*10)  ! DGRW EN DECIDEGRES
-            IF(IG2.LT.0) THEN
-               IG2 = ABS(IG2)
-               IG4 = IG4 + 16384
-            ENDIF
+            IG2 = MODULO(NINT(XG4*10),3600)  ! DGRW EN DECIDEGRES, 0 A 3599
             IF(IG2.GT.1800) THEN
                IG2 = ABS(IG2 - 3600)
                IG4 = IG4 + 16384
-- 
2.43.0


From cfe22c6a212ff34f9c2b4622f38dc26ae01e3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 156/205] fix: the Lambert conformal position of a longitude
 follows the cone of the projection

---
 src/base/xyflcc.F | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/xyflcc.F b/src/base/xyflcc.F
index 6ad1fc8..623ea0c 100644
--- a/src/base/xyflcc.F
+++ b/src/base/xyflcc.F
@@ -69,8 +69,8 @@
          DLAT = 90. - RDTODG*2.*ATAN((R/R0)**(1./ALPHA))
       ELSE
          R = R0*(COS(DGTORD*DLAT)/(1.+SIN(DGTORD*DLAT)))**ALPHA
-         X = R*SIN(DGTORD*(DLON-LAM0))
-         Y = -R*COS(DGTORD*(DLON-LAM0))
+         X = R*SIN(ALPHA*DGTORD*(DLON-LAM0))
+         Y = -R*COS(ALPHA*DGTORD*(DLON-LAM0))
       ENDIF
       RETURN
       END
-- 
2.43.0


From 76513ee2d1d9332363067575516a1cdacdad06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 157/205] fix: the points of a Lambert conformal grid are
 placed around its centre, on every row

---
 src/base/grlcc.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/grlcc.f b/src/base/grlcc.f
index 6438f06..8c4067f 100644
--- a/src/base/grlcc.f
+++ b/src/base/grlcc.f
@@ -57,8 +57,8 @@
       Y0 = (NJ+1)*.5 - Y0
 
       DO 10 I=1,NI
-      DO 10 J=1,NI
-        CALL LCCFXY(X0+I,Y0+J,XLAT(I,J),XLON(I,J),
+      DO 10 J=1,NJ
+        CALL LCCFXY(I-X0,J-Y0,XLAT(I,J),XLON(I,J),
      %              PHI1,PHI2,LAMBDA0,DS,1.)
  10   CONTINUE
       RETURN
-- 
2.43.0


From d56a90fb8d771740010c051ee58a64ca7c55fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 158/205] fix: the Gaussian latitudes of a hemisphere stay in
 their array, and those of the south are refined

---
 src/base/dgauss.F | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/base/dgauss.F b/src/base/dgauss.F
index 7fdafe5..03323eb 100644
--- a/src/base/dgauss.F
+++ b/src/base/dgauss.F
@@ -103,25 +103,27 @@
    14    CONTINUE
 *
       DO 15 I=1,L
+      IRT = I
+      IF(KASE.EQ.SOUTH) IRT = I + MOD(N,2)
 *
 *    REPEAT 1 NEWTON ITERATION
 * **  BEGIN
 *
-    6       CALL ORDLEG(G,ROOTS(I),N)
-            CALL ORDLEG(GM,ROOTS(I),N-1)
+    6       CALL ORDLEG(G,ROOTS(IRT),N)
+            CALL ORDLEG(GM,ROOTS(IRT),N-1)
             PN = NORMN*G
             PNM= NORMNM*GM
 *
 * **         GUESS(K+1)=GUESS(K)-P/(DP/DX)
 *
-            RDPDX = (ROOTS(I)**2-1.0)/(N*(ROOTS(I)*PN-PNM))
+            RDPDX = (ROOTS(IRT)**2-1.0)/(N*(ROOTS(IRT)*PN-PNM))
             DELTA = -PN*RDPDX
-            ROOTS(I) = ROOTS(I)+DELTA
+            ROOTS(IRT) = ROOTS(IRT)+DELTA
             IF(ABS(DELTA).GT.TOL) GO TO 6
 *
 * **  END UNTIL ABS(DELTA).LE.TOL
 *
-               ROOTS(N+1-I) = -ROOTS(I)
+               IF(KASE.EQ.GLOBAL) ROOTS(N+1-I) = -ROOTS(I)
    15    CONTINUE
 *
       IF(MOD(N,2).EQ.0) RETURN
-- 
2.43.0


From ed2d6289850ae98af5ae21d0c347de01e20dd5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 159/205] fix: values and winds of a hemispheric Gaussian grid
 use the roots of the hemisphere only

---
 src/base/sglogg.F |  4 +++
 src/base/vglogg.F | 66 +++++++++++++++++++++++++----------------------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/src/base/sglogg.F b/src/base/sglogg.F
index 56140b5..5ef5499 100644
--- a/src/base/sglogg.F
+++ b/src/base/sglogg.F
@@ -107,6 +107,10 @@
       IF(ROOTS(1).GT.1.0)
      1  CALL DGAUSS(NPOLY,ROOTS,KASE)
 *
+* ROOTS HOLDS THE LJ POSITIVE ROOTS IF HEMISPHERIC
+*
+      NPOLY = LJ
+*
 * THERE ARE 5 CASES TO CONSIDER DEPENDING ON MU
 * 2 NEAR THE N POLE, 1 INTERIOUR, AND 2 NEAR THE S POLE.
 *
diff --git a/src/base/vglogg.F b/src/base/vglogg.F
index 78bfc61..6d6def8 100644
--- a/src/base/vglogg.F
+++ b/src/base/vglogg.F
@@ -99,6 +99,10 @@
 
 #include "cubic.cdk"
 #include "lagrange.cdk"
+*
+* ROOTS HOLDS THE LJ POSITIVE ROOTS IF HEMISPHERIC
+*
+      ROOT(K) = ROOTS(MIN(K,2*LJ+1-K))*SIGN(1.0,FLOAT(2*(LJ-K)+1))
        KASE = GLOBAL
       NPOLY = LJ
       SIGN0 = 1.0
@@ -151,29 +155,29 @@
 * THERE ARE 5 CASES TO CONSIDER DEPENDING ON MU
 * 2 NEAR THE N POLE, 1 INTERIOUR, AND 2 NEAR THE S POLE.
 *
-      IF(MU.GT.ROOTS(1)) ICASE = 1
-      IF(MU.LE.ROOTS(1) .AND. MU.GT.ROOTS(2)) ICASE=2
-      IF(MU.LE.ROOTS(2).AND.MU.GT.ROOTS(NPOLY-1)) ICASE = 3
-      IF(MU.LE.ROOTS(NPOLY-1).AND.MU.GT.ROOTS(NPOLY)) ICASE = 4
-      IF(MU.LE.ROOTS(NPOLY)) ICASE = 5
+      IF(MU.GT.ROOT(1)) ICASE = 1
+      IF(MU.LE.ROOT(1) .AND. MU.GT.ROOT(2)) ICASE=2
+      IF(MU.LE.ROOT(2).AND.MU.GT.ROOT(NPOLY-1)) ICASE = 3
+      IF(MU.LE.ROOT(NPOLY-1).AND.MU.GT.ROOT(NPOLY)) ICASE = 4
+      IF(MU.LE.ROOT(NPOLY)) ICASE = 5
       GO TO (1,2,3,4,5),ICASE
 *
 * BETWEEN POLE AND FIRST ROW
 *
     1 JJ = 0
-      A = 2.0 -ROOTS(2)
-      B = 2.0 -ROOTS(1)
-      C = ROOTS(1)
-      D = ROOTS(2)
+      A = 2.0 -ROOT(2)
+      B = 2.0 -ROOT(1)
+      C = ROOT(1)
+      D = ROOT(2)
       GO TO 30
 *
 * BETWEEN FIRST AND SECOND ROW
 *
     2 JJ = 1
-      A = 2.0 -ROOTS(1)
-      B = ROOTS(1)
-      C = ROOTS(2)
-      D = ROOTS(3)
+      A = 2.0 -ROOT(1)
+      B = ROOT(1)
+      C = ROOT(2)
+      D = ROOT(3)
       GO TO 30
 *
 * FAR ENOUGH FROM POLES
@@ -181,45 +185,45 @@
     3 FRAC = 0.5*(1.0-MU)
       JJ = MIN0(NPOLY-1,MAX0(2,INT(FRAC*NPOLY)))
 *
-* ONE MUST LOCATE MU, I.E. ROOTS(JJ).GE.MU.GT.ROOTS(JJ+1)
+* ONE MUST LOCATE MU, I.E. ROOT(JJ).GE.MU.GT.ROOT(JJ+1)
 * THE ABOVE IS A SUITABLE 1ST GUESS.
-* WHILE ROOTS(JJ).LT.MU DO JJ=JJ-1
+* WHILE ROOT(JJ).LT.MU DO JJ=JJ-1
 *
-   10 IF(ROOTS(JJ).GE.MU) GO TO 15
+   10 IF(ROOT(JJ).GE.MU) GO TO 15
          JJ=JJ-1
          GO TO 10
 *
-* WHILE ROOTS(JJ+1).GE.MU DO JJ=JJ+1
+* WHILE ROOT(JJ+1).GE.MU DO JJ=JJ+1
 *
-   15 IF(ROOTS(JJ+1).LT.MU) GO TO 17
+   15 IF(ROOT(JJ+1).LT.MU) GO TO 17
          JJ=JJ+1
          GO TO 15
    17 CONTINUE
 *
-* ROOTS(JJ).GE.MU.GT.ROOTS(JJ+1)
+* ROOT(JJ).GE.MU.GT.ROOT(JJ+1)
 *
-      A = ROOTS(JJ-1)
-      B = ROOTS(JJ)
-      C = ROOTS(JJ+1)
-      D = ROOTS(JJ+2)
+      A = ROOT(JJ-1)
+      B = ROOT(JJ)
+      C = ROOT(JJ+1)
+      D = ROOT(JJ+2)
       GO TO 30
 *
 * BETWEEN LAST TWO ROWS
 *
     4 JJ = NPOLY-1
-      A = ROOTS(NPOLY-2)
-      B = ROOTS(NPOLY-1)
-      C = ROOTS(NPOLY)
-      D = -2.0-ROOTS(NPOLY)
+      A = ROOT(NPOLY-2)
+      B = ROOT(NPOLY-1)
+      C = ROOT(NPOLY)
+      D = -2.0-ROOT(NPOLY)
       GO TO 30
 *
 * BETWEEN LAST ROW AND SOUTH POLE
 *
     5 JJ = NPOLY
-      A = ROOTS(NPOLY-1)
-      B = ROOTS(NPOLY)
-      C = -2.0 - ROOTS(NPOLY)
-      D = -2.0 - ROOTS(NPOLY-1)
+      A = ROOT(NPOLY-1)
+      B = ROOT(NPOLY)
+      C = -2.0 - ROOT(NPOLY)
+      D = -2.0 - ROOT(NPOLY-1)
       GO TO 30
 *
 * POSITION IS NOW KNOWN, LET'S DO THE WORK
-- 
2.43.0


From 96dd6957ea0e47c0bd090c222b0d6e87a1a3d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 160/205] fix: the roots of a Gaussian grid are computed when
 the table does not hold them, as documented

---
 src/base/sglogg.F | 2 +-
 src/base/vglogg.F | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/sglogg.F b/src/base/sglogg.F
index 5ef5499..c983afb 100644
--- a/src/base/sglogg.F
+++ b/src/base/sglogg.F
@@ -104,7 +104,7 @@
 *
       IF (LEGVAR(ROOTS(1)).NE.0)
      1  CALL DGAUSS(NPOLY,ROOTS,KASE)
-      IF(ROOTS(1).GT.1.0)
+      IF(ROOTS(1).LE.0.0 .OR. ROOTS(1).GT.1.0)
      1  CALL DGAUSS(NPOLY,ROOTS,KASE)
 *
 * ROOTS HOLDS THE LJ POSITIVE ROOTS IF HEMISPHERIC
diff --git a/src/base/vglogg.F b/src/base/vglogg.F
index 6d6def8..4182932 100644
--- a/src/base/vglogg.F
+++ b/src/base/vglogg.F
@@ -149,7 +149,7 @@
 *
       IF (LEGVAR(ROOTS(1)).NE.0)
      1  CALL DGAUSS(NPOLY,ROOTS,KASE)
-      IF(ROOTS(1).GT.1.0)
+      IF(ROOTS(1).LE.0.0 .OR. ROOTS(1).GT.1.0)
      1  CALL DGAUSS(NPOLY,ROOTS,KASE)
 *
 * THERE ARE 5 CASES TO CONSIDER DEPENDING ON MU
-- 
2.43.0


From 516a45008bb3a0e53d5a12a7223d5c7240692ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 161/205] fix: values and winds of a Gaussian grid at negative
 longitudes are interpolated

---
 src/base/sglogg.F | 1 +
 src/base/vglogg.F | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/base/sglogg.F b/src/base/sglogg.F
index c983afb..206656b 100644
--- a/src/base/sglogg.F
+++ b/src/base/sglogg.F
@@ -193,6 +193,7 @@
 *
       RDLAM = FLOAT(LI)/360.0
       XX = 1.0 + LAMBDA*RDLAM
+      IF(LAMBDA.LT.0.0) XX = XX + LI
       II = XX
       DX = XX-II
       CALL IDXES(IDX,JDX,II,JJ,LI,LJ,KASE)
diff --git a/src/base/vglogg.F b/src/base/vglogg.F
index 4182932..4423acb 100644
--- a/src/base/vglogg.F
+++ b/src/base/vglogg.F
@@ -231,6 +231,7 @@
    30 CONTINUE
       RDLAM = FLOAT(LI)/360.0
       XX = 1.0 + CLAMDA*RDLAM
+      IF(CLAMDA.LT.0.0) XX = XX + LI
       II = XX
       DX = XX-II
       CALL IDXES(IDX,JDX,II,JJ,LI,LJ,KASE)
-- 
2.43.0


From 6a625cff63ff1114cfc6e6eec56e8b28736a66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 162/205] fix: the wind at a pole uses the spacing of the
 meridians

---
 src/base/vglo.F   | 1 +
 src/base/vglogg.F | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/base/vglo.F b/src/base/vglo.F
index 15b1830..28e9dca 100644
--- a/src/base/vglo.F
+++ b/src/base/vglo.F
@@ -118,6 +118,7 @@
 
 *                   SPECIAL INTER NEAR POLE
 * ----------------------------------------------------------------------
+      DELLAM = 360.0 / LI
       CALL NPSPIN (SPEED,PSI,U,V,LI,LJ,KASE,PHI,ARBPSI,DELLAM)
       RETURN
 
diff --git a/src/base/vglogg.F b/src/base/vglogg.F
index 4423acb..4bbe569 100644
--- a/src/base/vglogg.F
+++ b/src/base/vglogg.F
@@ -132,6 +132,7 @@
 
 *                   SPECIAL INTER NEAR POLE
 * ------------------------------------------------------------------------------
+      DELLAM = 360.0 / LI
       CALL NPSPIN (SPEED,PSI,U,V,LI,LJ,KASE,PHI,ARBPSI,DELLAM)
        RETURN
 
-- 
2.43.0


From 33447c00c57ac200d021d70aca2222149e0491ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 163/205] fix: across the south pole of a mirrored hemisphere,
 the points of the circles beyond it are used

---
 src/base/idxes.F | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/idxes.F b/src/base/idxes.F
index 0057b14..afc5a5c 100644
--- a/src/base/idxes.F
+++ b/src/base/idxes.F
@@ -109,7 +109,7 @@
       DO  500 JJ = 1 , 4
       IF  ((JDX(JJ).GT.0 .AND. JDX(JJ).LE.LJ))
      $    GO TO 400
-      IF (KASE .EQ. NORTH .AND. JDX(JJ).GT.0)
+      IF (KASE .EQ. NORTH .AND. JDX(JJ).GT.0 .AND. JDX(JJ).LE.LJJ)
      $    GO TO 400
       IF (KASE.EQ.SOUTH .AND. JDX(JJ).LE.LJ)
      $    GO TO 400
@@ -126,6 +126,8 @@
      $         IDX(II,JJ) = IDX(II,JJ)-LI
   450     CONTINUE
 *
+        IF (KASE.EQ.NORTH .AND. JDX(JJ).GT.LJJ)
+     $      JDX(JJ) = 2*LJJ+1-JDX(JJ)
         IF (JDX(JJ).LT.1)
      $      JDX(JJ) = ISIGN(1-JDX(JJ),ISGN)
         IF (JDX(JJ).GT.LJ)
-- 
2.43.0


From 55ef79f447bf2bcd7b99daf70eb3afae149e4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 164/205] fix: at the south pole of a mirrored hemisphere, the
 wind is the mirror of the wind at the north pole

---
 src/base/npspin.F | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/base/npspin.F b/src/base/npspin.F
index ff53301..1fa7841 100644
--- a/src/base/npspin.F
+++ b/src/base/npspin.F
@@ -76,6 +76,11 @@
        IF(PHI.GT. 90.0 .AND.KASE.EQ.GLOBAL) J2 = LJ-1
 
 
+*      MIRRORED HEMISPHERE, SOUTH POLE
+       SIGN0 = 1.0
+       IF(PHI.GT. 90.0 .AND.KASE.EQ.NORTH) SIGN0 = -1.0
+
+
        UV2J1 = 0.0
        UV2J2 = 0.0
       VV2J1 = 0.0
@@ -93,12 +98,12 @@
         CLAMBI = (I-1)*DELLAM*DGTORD
         S = -SIN(CLAMBI)
         C =  COS(CLAMBI)
-        UI = S*U(I,J1) - C*V(I,J1)
-        VI = C*U(I,J1) + S*V(I,J1)
+        UI = S*U(I,J1) - C*SIGN0*V(I,J1)
+        VI = C*U(I,J1) + S*SIGN0*V(I,J1)
         UV2J1 = UV2J1 + UI
         VV2J1 = VV2J1 + VI
-        UI = S*U(I,J2) - C*V(I,J2)
-        VI = C*U(I,J2) + S*V(I,J2)
+        UI = S*U(I,J2) - C*SIGN0*V(I,J2)
+        VI = C*U(I,J2) + S*SIGN0*V(I,J2)
         UV2J2 = UV2J2 + UI
         VV2J2 = VV2J2 + VI
    20   CONTINUE
-- 
2.43.0


From 016d80f5a8d3da0588b5bc663a451dd01b62a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 165/205] fix: gdllfxyz gives the positions of an E grid

---
 src/interp/gdllfxyz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp/gdllfxyz.c b/src/interp/gdllfxyz.c
index 3b7c6be..d79d4e5 100644
--- a/src/interp/gdllfxyz.c
+++ b/src/interp/gdllfxyz.c
@@ -46,6 +46,7 @@ int32_t c_gdllfxyz(int32_t gdid, float *lat, float *lon, float *x, float *y, int
     {
     case 'A':
     case 'B':
+    case 'E':
     case 'G':
     case 'L':
     case 'N':
-- 
2.43.0


From 21348cf6894364a5ca31813848fd5637c75847cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 166/205] fix: gdllfxyz gives longitudes from 0 to 360 on polar
 stereographic axes

---
 src/interp/gdllfxyz.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/gdllfxyz.c b/src/interp/gdllfxyz.c
index d79d4e5..521440d 100644
--- a/src/interp/gdllfxyz.c
+++ b/src/interp/gdllfxyz.c
@@ -81,6 +81,10 @@ int32_t c_gdllfxyz(int32_t gdid, float *lat, float *lon, float *x, float *y, int
     un = 1;
     f77name(ez_vllfxy)(lat,lon,x,y,&npts,&un,&grEntree.fst.xgref[D60],
         &grEntree.fst.xgref[DGRW], &grEntree.fst.xgref[PI], &grEntree.fst.xgref[PJ],&grEntree.fst.hemisphere);
+    for (i=0; i < n; i++)
+      {
+        lon[i] = lon[i] < 0.0 ? lon[i] + 360.0 : lon[i];
+      }
     break;
 
   case 'L':
-- 
2.43.0


From 47919a93317a2ae3ef010b367f01b87c6753dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:23 +0000
Subject: [PATCH 167/205] fix: the distance between points that coincide or are
 opposite is a number

---
 src/interp/ez_calcdist.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_calcdist.c b/src/interp/ez_calcdist.c
index 98cc6ef..c18cc78 100644
--- a/src/interp/ez_calcdist.c
+++ b/src/interp/ez_calcdist.c
@@ -74,7 +74,13 @@ void c_ez_calcdist(float *distance, float lat1, float lon1, float lat2, float lo
    radlon1 = lon1 * degre_a_radian;
    radlon2 = lon2 * degre_a_radian;
 
-   *distance = (float)(earth_radius*acos(cos(radlat1)*cos(radlat2)*cos(radlon1-radlon2)+sin(radlat1)*sin(radlat2)));
+   double cosdist = cos(radlat1)*cos(radlat2)*cos(radlon1-radlon2)+sin(radlat1)*sin(radlat2);
+
+   /* rounding may lead out of the domain of acos for points that coincide or are opposite */
+   if (cosdist >  1.0) cosdist =  1.0;
+   if (cosdist < -1.0) cosdist = -1.0;
+
+   *distance = (float)(earth_radius*acos(cosdist));
 }
 
 void c_ez_calcdist2(double *distance, float lat1, float lon1, float lat2, float lon2)
@@ -96,8 +102,8 @@ void c_ez_calcdist2(double *distance, float lat1, float lon1, float lat2, float
    sindlat = sin(dlat*0.5);
    sindlon = sin(dlon*0.5);
    a = sindlat*sindlat + cos(radlat1) * cos(radlat2) * sindlon*sindlon;
+   if (a > 1.0) a = 1.0;
    c = 2.0 * atan2(sqrt(a),sqrt(1.0-a));
-   c = 2.0 * asin(sqrt(a));
    *distance = (float)(c*earth_radius);
 
 /*   *distance = (float)(earth_radius*acos(cos(radlat1)*cos(radlat2)*cos(radlon1-radlon2)+sin(radlat1)*sin(radlat2)));*/
-- 
2.43.0


From caf0835d5bfcd8273dbfed1cffa7251e2de0bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:26 +0000
Subject: [PATCH 168/205] fix: calcarea2 gives the area of triangles without
 extent

---
 src/interp/ez_calcdist.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/interp/ez_calcdist.c b/src/interp/ez_calcdist.c
index c18cc78..f7e150e 100644
--- a/src/interp/ez_calcdist.c
+++ b/src/interp/ez_calcdist.c
@@ -275,15 +275,16 @@ void c_ez_calcarea2(double *area, float lats[], float lons[])
     seg_e /= earth_radius;
 
     double s = 0.5*(seg_a+seg_b+seg_c);
-    double excess = sqrt(tan(0.5*s)*tan(0.5*(s-seg_a))*tan(0.5*(s-seg_b))*tan(0.5*(s-seg_c)));
-    excess = atan(excess);
+    double product = tan(0.5*s)*tan(0.5*(s-seg_a))*tan(0.5*(s-seg_b))*tan(0.5*(s-seg_c));
+    // a triangle without extent: its area is 0, give or take the rounding
+    double excess = product > 0.0 ? atan(sqrt(product)) : 0.0;
     excess = 4.0 * excess;
     double area1 = earth_radius * earth_radius * excess;
     // printf("s: %f excess: %f area1: %f\n", s, excess, area1);
 
     s = 0.5*(seg_c+seg_d+seg_e);
-    excess = sqrt(tan(0.5*s)*tan(0.5*(s-seg_c))*tan(0.5*(s-seg_d))*tan(0.5*(s-seg_e)));
-    excess = atan(excess);
+    product = tan(0.5*s)*tan(0.5*(s-seg_c))*tan(0.5*(s-seg_d))*tan(0.5*(s-seg_e));
+    excess = product > 0.0 ? atan(sqrt(product)) : 0.0;
     excess *= 4.0;
     double area2 = earth_radius * earth_radius * excess;
     // printf("s: %f excess: %f area2: %f\n", s, excess, area2);
-- 
2.43.0


From d7cf871f8f660f033f09cab32024eb4771d4af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:30 +0000
Subject: [PATCH 169/205] fix: the area of a cell is right when a triangle is
 obtuse, and at the poles

---
 src/interp/ez_calcdist.c | 102 +++------------------------------------
 1 file changed, 7 insertions(+), 95 deletions(-)

diff --git a/src/interp/ez_calcdist.c b/src/interp/ez_calcdist.c
index f7e150e..5afab56 100644
--- a/src/interp/ez_calcdist.c
+++ b/src/interp/ez_calcdist.c
@@ -150,109 +150,21 @@ void c_ez_calcdist2(double *distance, float lat1, float lon1, float lat2, float
 
 void c_ez_calcarea_rect(float *area, float lat1, float lon1, float lat2, float lon2)
 {
-   double degre_a_radian;
-   double radlat1, radlat2, radlon1, radlon2;
-   double earth_radius = 6370997.;
-   double a,b,c,d,e;
-   double seg_a, seg_b, seg_c, seg_d, seg_e;
-   double area1, area2;
-
-   degre_a_radian = M_PI / 180.0;
-
-   radlat1 = lat1 * degre_a_radian;
-   radlat2 = lat2 * degre_a_radian;
-   radlon1 = lon1 * degre_a_radian;
-   radlon2 = lon2 * degre_a_radian;
-
-   /*
-   seg_a = distance pt(1,1) - pt(2,1)
-   seg_b = distance pt(2,1) - pt(2,2)
-   seg_c = distance pt(1,1) - pt(2,2)
-   seg_d = distance pt(1,2) - pt(2,2)
-   seg_e = distance pt(1,1) - pt(1,2)
-   */
-
-   /* These computations have not been optimized */
-
-   seg_a = acos(cos(radlat1)*cos(radlat1)*cos(radlon1-radlon2)+sin(radlat1)*sin(radlat1));
-   seg_b = acos(cos(radlat1)*cos(radlat2)*cos(radlon2-radlon2)+sin(radlat1)*sin(radlat2));
-   seg_c = acos(cos(radlat1)*cos(radlat2)*cos(radlon1-radlon2)+sin(radlat1)*sin(radlat2));
-   seg_d = acos(cos(radlat2)*cos(radlat2)*cos(radlon1-radlon2)+sin(radlat2)*sin(radlat2));
-   seg_e = acos(cos(radlat1)*cos(radlat2)*cos(radlon1-radlon1)+sin(radlat1)*sin(radlat2));
-/*   printf("seg_a:%f seg_b:%f seg_c:%f seg_d:%f seg_e:%f\n", seg_a, seg_b, seg_c, seg_d, seg_e);*/
-
-   c = acos((cos(seg_c)-cos(seg_b)*cos(seg_a))/(sin(seg_b)*sin(seg_a)));
-   b = asin(sin(seg_b)*sin(c)/sin(seg_c));
-   a = asin(sin(seg_a)*sin(c)/sin(seg_c));
-   area1 = ((a + b + c) - M_PI) * earth_radius * earth_radius;
-/*   printf("a:%f b:%f c:%f area:%f\n", a, b, c, area1);*/
-
-/*   printf("seg_a:%f seg_b:%f seg_c:%f seg_d:%f seg_e:%f\n", seg_a, seg_b, seg_c, seg_d, seg_e);*/
-   c = acos((cos(seg_c)-cos(seg_e)*cos(seg_d))/(sin(seg_e)*sin(seg_d)));
-   e = asin(sin(seg_e)*sin(c)/sin(seg_c));
-   d = asin(sin(seg_d)*sin(c)/sin(seg_c));
-   area2 = ((d + e + c) - M_PI) * earth_radius * earth_radius;
-/*   printf("d:%f e:%f c:%f area:%f\n", d, e, c, area2);*/
-   *area = (float)(area1 + area2);
+   float lats[4] = {lat1, lat1, lat2, lat2};
+   float lons[4] = {lon1, lon2, lon2, lon1};
 
+   c_ez_calcarea(area, lats, lons);
 }
 
 
 
 void c_ez_calcarea(float *area, float lats[], float lons[])
 {
-   double degre_a_radian;
-   double radlat[4], radlon[4];
-   double earth_radius = 6370997.;
-   double a,b,c,d,e;
-   double seg_a, seg_b, seg_c, seg_d, seg_e;
-   double area1, area2;
-   int i;
-
-   degre_a_radian = M_PI / 180.0;
-
-   for (i=0; i < 4; i++)
-      {
-      radlat[i] = lats[i] * degre_a_radian;
-      radlon[i] = lons[i] * degre_a_radian;
-      }
-
-
-   /*
-   seg_a = distance pt(1,1) - pt(2,1)
-   seg_b = distance pt(2,1) - pt(2,2)
-   seg_c = distance pt(1,1) - pt(2,2)
-   seg_d = distance pt(1,2) - pt(2,2)
-   seg_e = distance pt(1,1) - pt(1,2)
-   */
-
-   /* These computations have not been optimized */
-
-   seg_a = acos(cos(radlat[0])*cos(radlat[1])*cos(radlon[0]-radlon[1])+sin(radlat[0])*sin(radlat[1]));
-   seg_b = acos(cos(radlat[1])*cos(radlat[2])*cos(radlon[1]-radlon[2])+sin(radlat[1])*sin(radlat[2]));
-   seg_c = acos(cos(radlat[0])*cos(radlat[2])*cos(radlon[0]-radlon[2])+sin(radlat[0])*sin(radlat[2]));
-   seg_d = acos(cos(radlat[2])*cos(radlat[3])*cos(radlon[2]-radlon[3])+sin(radlat[2])*sin(radlat[3]));
-   seg_e = acos(cos(radlat[0])*cos(radlat[3])*cos(radlon[0]-radlon[3])+sin(radlat[0])*sin(radlat[3]));
-/*   printf("seg_a:%f seg_b:%f seg_c:%f seg_d:%f seg_e:%f\n", seg_a, seg_b, seg_c, seg_d, seg_e);*/
-
-   c = acos((cos(seg_c)-cos(seg_b)*cos(seg_a))/(sin(seg_b)*sin(seg_a)));
-   b = asin(sin(seg_b)*sin(c)/sin(seg_c));
-   a = asin(sin(seg_a)*sin(c)/sin(seg_c));
-   area1 = ((a + b + c) - M_PI) * earth_radius * earth_radius;
-
-/*   printf("seg_a:%f seg_b:%f seg_c:%f seg_d:%f seg_e:%f\n", seg_a, seg_b, seg_c, seg_d, seg_e);*/
-   c = acos((cos(seg_c)-cos(seg_e)*cos(seg_d))/(sin(seg_e)*sin(seg_d)));
-   e = asin(sin(seg_e)*sin(c)/sin(seg_c));
-   d = asin(sin(seg_d)*sin(c)/sin(seg_c));
-   area2 = ((d + e + c) - M_PI) * earth_radius * earth_radius;
-   *area = (float)(area1 + area2);
-   if (*area < 0.0)
-      {
-      printf("a:%f b:%f c:%f area:%f\n", a, b, c, area1);
-      printf("d:%f e:%f c:%f area:%f\n", d, e, c, area2);
-      printf("area:%f\n", *area);
-      }
+   /* The sides of the triangles define their areas; angles taken from asin would be wrong in obtuse triangles */
+   double area2;
 
+   c_ez_calcarea2(&area2, lats, lons);
+   *area = (float)area2;
 }
 
 void c_ez_calcarea2(double *area, float lats[], float lons[])
-- 
2.43.0


From 00739e045a1b225ee5850cc1b8ab3504b0dc4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 170/205] fix: distances and areas in double precision are not
 rounded to single precision, which spoils thin cells

---
 src/interp/ez_calcdist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_calcdist.c b/src/interp/ez_calcdist.c
index 5afab56..9adc986 100644
--- a/src/interp/ez_calcdist.c
+++ b/src/interp/ez_calcdist.c
@@ -104,7 +104,7 @@ void c_ez_calcdist2(double *distance, float lat1, float lon1, float lat2, float
    a = sindlat*sindlat + cos(radlat1) * cos(radlat2) * sindlon*sindlon;
    if (a > 1.0) a = 1.0;
    c = 2.0 * atan2(sqrt(a),sqrt(1.0-a));
-   *distance = (float)(c*earth_radius);
+   *distance = c*earth_radius;
 
 /*   *distance = (float)(earth_radius*acos(cos(radlat1)*cos(radlat2)*cos(radlon1-radlon2)+sin(radlat1)*sin(radlat2)));*/
 }
@@ -201,7 +201,7 @@ void c_ez_calcarea2(double *area, float lats[], float lons[])
     double area2 = earth_radius * earth_radius * excess;
     // printf("s: %f excess: %f area2: %f\n", s, excess, area2);
 
-    *area = (float)(area1 + area2);
+    *area = area1 + area2;
     if (*area < 0.0) {
         printf("area1:%f\n", area1);
         printf("area2:%f\n", area2);
-- 
2.43.0


From 9440c809951aea452946fcad66dc68bb98d3bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 171/205] fix: the positions of the target points are known
 when a mask is interpolated before any field

---
 src/interp/ez_mask.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/ez_mask.c b/src/interp/ez_mask.c
index 2ab40de..58d7031 100644
--- a/src/interp/ez_mask.c
+++ b/src/interp/ez_mask.c
@@ -204,6 +204,8 @@ int c_ezsint_mask(int *mask_out, int *mask_in) {
       }
 
    c_ezdefset(gdout, gdin);
+   ez_calclatlon(gdout);
+   ez_calcxy(gdin, gdout);
    idx_gdin = c_find_gdin(gdin, gdout);
    c_ezgprm(gdin, grtyp_in, &ni_gdin, &nj_gdin, &ig1_gdin, &ig2_gdin, &ig3_gdin, &ig4_gdin);
    c_ezgprm(gdout, grtyp_out, &ni_gdout, &nj_gdout, &ig1_gdout, &ig2_gdout, &ig3_gdout, &ig4_gdout);
@@ -252,6 +254,8 @@ int c_ezget_mask_zones(int *mask_out, int *mask_in) {
         }
 
     c_ezdefset(gdout, gdin);
+    ez_calclatlon(gdout);
+    ez_calcxy(gdin, gdout);
     idx_gdin = c_find_gdin(gdin, gdout);
     c_ezgprm(gdin, grtyp_in, &ni_gdin, &nj_gdin, &ig1_gdin, &ig2_gdin, &ig3_gdin, &ig4_gdin);
     c_ezgprm(gdout, grtyp_out, &ni_gdout, &nj_gdout, &ig1_gdout, &ig2_gdout, &ig3_gdout, &ig4_gdout);
-- 
2.43.0


From c8e342858075dac1afba09d4ecefca1be8f068d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:05 +0000
Subject: [PATCH 172/205] fix: the mask of a source stored from north to south,
 or that goes around the globe, is interpolated from its own points

---
 src/interp/ez_mask.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_mask.c b/src/interp/ez_mask.c
index 58d7031..d0e6655 100644
--- a/src/interp/ez_mask.c
+++ b/src/interp/ez_mask.c
@@ -181,6 +181,29 @@ int c_ezuvint_mdm(float *uuout, float *vvout, int *mask_out, float *uuin, float
 }
 
 
+//! Copy a mask in the order of the positions in its grid
+//! \return Allocated mask, from south to north, with the first column after the last one on a grid that goes around the globe
+static int *ordered_mask(
+    //! [in] Grid
+    const _Grille *gr,
+    //! [in] Mask as its points are stored
+    const int *mask_in,
+    //! [out] Number of columns of the copy
+    int *ni
+) {
+    *ni = gr->ni + (gr->extension == 2 ? 1 : 0);
+    int *mask = malloc((size_t)*ni * gr->nj * sizeof(int));
+    if (mask == NULL) return NULL;
+    for (int j = 0; j < gr->nj; j++) {
+        const int *row = &mask_in[(size_t)gr->ni * (gr->fst.axe_y_inverse == 1 ? gr->nj - 1 - j : j)];
+        for (int i = 0; i < *ni; i++) {
+            mask[(size_t)*ni * j + i] = row[i % gr->ni];
+        }
+    }
+    return mask;
+}
+
+
 int c_ezsint_mask(int *mask_out, int *mask_in) {
    char grtyp_in[2], grtyp_out[2];
    int ni_gdin, ni_gdout, nj_gdin, nj_gdout;
@@ -219,7 +242,11 @@ int c_ezsint_mask(int *mask_out, int *mask_in) {
       {
       x = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].x;
       y = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].y;
-      f77name(qqq_ezsint_mask)(mask_out, x, y, &ni_gdout, &nj_gdout, mask_in, &ni_gdin, &nj_gdin);
+      int ni_mask;
+      int *mask = ordered_mask(&Grille[gdrow_in][gdcol_in], mask_in, &ni_mask);
+      if (mask == NULL) return -1;
+      f77name(qqq_ezsint_mask)(mask_out, x, y, &ni_gdout, &nj_gdout, mask, &ni_mask, &nj_gdin);
+      free(mask);
       }
    return 0;
 }
@@ -263,6 +290,10 @@ int c_ezget_mask_zones(int *mask_out, int *mask_in) {
     x = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].x;
     y = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].y;
 
-    f77name(qqq_ezget_mask_zones)(mask_out, x, y, &ni_gdout, &nj_gdout, mask_in, &ni_gdin, &nj_gdin);
+    int ni_mask;
+    int *mask = ordered_mask(&Grille[gdrow_in][gdcol_in], mask_in, &ni_mask);
+    if (mask == NULL) return -1;
+    f77name(qqq_ezget_mask_zones)(mask_out, x, y, &ni_gdout, &nj_gdout, mask, &ni_mask, &nj_gdin);
+    free(mask);
     return 0;
 }
-- 
2.43.0


From 626b196d5ab0d54e0e14a05a84e32ab4052c7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 173/205] fix: the mask at the edges of a source is that of the
 points there, not of what follows in memory

---
 src/interp/ezget_mask_zones.inc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/interp/ezget_mask_zones.inc b/src/interp/ezget_mask_zones.inc
index 4e6b42f..d93ea23 100644
--- a/src/interp/ezget_mask_zones.inc
+++ b/src/interp/ezget_mask_zones.inc
@@ -21,11 +21,12 @@
 
    do j=1,nj_out
       do i=1,ni_out
-         ix = int(x(i,j))
-         iy = int(y(i,j))
          nix = nint(x(i,j))
          niy = nint(y(i,j))
-         if (ix<1.or.ix>ni_in.or.iy<1.or.iy>nj_in) then
+         ! the four points of the nearest cell of the grid
+         ix = max(1, min(int(x(i,j)), ni_in-1))
+         iy = max(1, min(int(y(i,j)), nj_in-1))
+         if (nix<1.or.nix>ni_in.or.niy<1.or.niy>nj_in) then
             mask_zones(i,j) = outside_src_grid
          else
             if (mask_in(nix,niy) == 0) then
@@ -76,11 +77,9 @@
 
    do j=1,nj_out
       do i=1,ni_out
-         ix = int(x(i,j))
-         iy = int(y(i,j))
          nix = nint(x(i,j))
          niy = nint(y(i,j))
-         if (ix<1.or.ix>ni_in.or.iy<1.or.iy>nj_in) then
+         if (nix<1.or.nix>ni_in.or.niy<1.or.niy>nj_in) then
             mask_out(i,j) = 0
          else if (mask_in(nix,niy) == 0) then
             mask_out(i,j) = 0
@@ -92,9 +91,9 @@
       do j=1,nj_out-1
          do i=1,ni_out-1
             if (mask_out(i,j) == 1) then
-               ix = int(x(i,j))
-               iy = int(y(i,j))
-               if (mask_in(ix+1,iy) == 0 .or.mask_in(ix,iy+1) == 0 .or. mask_in(ix+1,iy+1) == 0) then
+               ix = max(1, min(int(x(i,j)), ni_in-1))
+               iy = max(1, min(int(y(i,j)), nj_in-1))
+               if (mask_in(ix,iy) == 0 .or. mask_in(ix+1,iy) == 0 .or. mask_in(ix,iy+1) == 0 .or. mask_in(ix+1,iy+1) == 0) then
                   mask_out(i,j) = 0
                endif
             endif
-- 
2.43.0


From f2e217ea46fad3beb9761056385c482de3872f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 174/205] fix: the linear mask of the last row and column of
 the target depends on the four source points too

---
 src/interp/ezget_mask_zones.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ezget_mask_zones.inc b/src/interp/ezget_mask_zones.inc
index d93ea23..9a8ffbc 100644
--- a/src/interp/ezget_mask_zones.inc
+++ b/src/interp/ezget_mask_zones.inc
@@ -88,8 +88,8 @@
    enddo
 
    if (value(1:6) == 'linear') then
-      do j=1,nj_out-1
-         do i=1,ni_out-1
+      do j=1,nj_out
+         do i=1,ni_out
             if (mask_out(i,j) == 1) then
                ix = max(1, min(int(x(i,j)), ni_in-1))
                iy = max(1, min(int(y(i,j)), nj_in-1))
-- 
2.43.0


From e2b37b31a3657d819393a5310e695311b4f9bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:23 +0000
Subject: [PATCH 175/205] fix: 32 bit slices are those of their own place in
 the bit stream, and no word is read past the last slice

---
 src/primitives/f_bit_slicer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/primitives/f_bit_slicer.c b/src/primitives/f_bit_slicer.c
index 02fc4ce..745edb6 100644
--- a/src/primitives/f_bit_slicer.c
+++ b/src/primitives/f_bit_slicer.c
@@ -52,13 +52,14 @@ void f77name(f_bits_get)(int32_t *bit_array, int32_t *bits_per_slice, int32_t *s
     int current = *bits_per_slice++;                        /* number of bits to extract, min 0, max 32 */
     register unsigned int temp_slice;
 
-    if(left==0) { left = 32; mybits = *bit_array++ ;}       /* refill reservoir if empty */
     if(current > 32) current=32;
+    if(left==0 && current>0) { left = 32; mybits = *bit_array++ ;}  /* refill reservoir if empty */
     if(current <= 0)                  /* 0 bit slice, the easy answer is 0 */
       temp_slice = 0;
-    else if((current==32) && (left==32))
-      temp_slice = *bit_array++ ;
-    else if(left >= current){         /* enough bits in reservoir to satisfy request */
+    else if((current==32) && (left==32)) {                  /* the whole reservoir */
+      temp_slice = mybits;
+      left = 0;
+    }else if(left >= current){         /* enough bits in reservoir to satisfy request */
       register unsigned int temp = ( -1 << (32-current));   /* extraction mask */
       temp = (temp & mybits) >> (32-current);               /* extract and align right */
       temp_slice = temp;
-- 
2.43.0


From 8400038df5a22fad0468eb9b0b20c76ec1ed478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:52 +0000
Subject: [PATCH 176/205] fix: IBM numbers of zero mantissa are zero, and the
 sign does not spill over the high bits

---
 src/primitives/ibm32_ieee.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/primitives/ibm32_ieee.c b/src/primitives/ibm32_ieee.c
index 9020b54..031c063 100644
--- a/src/primitives/ibm32_ieee.c
+++ b/src/primitives/ibm32_ieee.c
@@ -36,14 +36,17 @@ void c_ibm32_ieee (unsigned long *tab_data_IBM, int nb_data)
         Mantis = (tab_data_IBM[i] & 0xffffff);
         expos = ((expos - 64) << 2) + 128 - 2;
 
-        if (Mantis != 0) {
+        if (Mantis == 0) {
+            tab_data_IBM[i] = 0;
+            continue;
+        } else {
             while((Mantis & 0x800000) == 0) {
                 Mantis <<= 1;
                 expos--;
             }
             Mantis &= 0x7fffff;
 
-            tab_data_IBM[i] = Mantis | (expos << 23) | (signbit << 31);
+            tab_data_IBM[i] = Mantis | (expos << 23) | ((unsigned long) signbit << 31);
         }
 
         /* || (Mantis == 0))*/
-- 
2.43.0


From b5c6dc26d1753cab0e583716f5f616d7a21b523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:52 +0000
Subject: [PATCH 177/205] fix: one, two or three bytes of an integer convert to
 characters and back, accented ones included

---
 src/primitives/rah2char.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/primitives/rah2char.c b/src/primitives/rah2char.c
index abb11fb..1c56d50 100644
--- a/src/primitives/rah2char.c
+++ b/src/primitives/rah2char.c
@@ -32,8 +32,11 @@ void f77name(rah2char)(char *chaine, int32_t *f_entier, const int32_t * const f_
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: nc(%d) > lng(%d) using lng\n",__func__,nc,lng);
         nc = lng;
     }
-    for (int i = 0; i < nc; i++) {
+    // bring the first character to the most significant byte
+    if (nc > 0 && nc < sizeof(entier)) {
         entier <<= ((8 * sizeof(entier)) - (nc * 8));
+    }
+    for (int i = 0; i < nc; i++) {
         *chaine = (entier >> 8 * sizeof(entier) - 8) & 0xFF;
         entier <<= 8;
         chaine++;
@@ -51,6 +54,6 @@ void f77name(char2rah)(char *chaine, int32_t *entier, const int32_t * const f_nc
 
     for (int i = 0; i < nc; i++) {
         *entier <<= 8;
-        *entier |= chaine[i];
+        *entier |= (unsigned char) chaine[i];
     }
 }
-- 
2.43.0


From c45cc39b7292b57aab0f1fc8f359a3a2def75a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:51 +0000
Subject: [PATCH 178/205] fix: values in excess, unknown keys, -- without
 positional keys and long values are reported or cut, instead of looping or
 corrupting memory

---
 src/primitives/c_ccard.c | 81 ++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index eebd0f8..e842c3a 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -22,6 +22,7 @@
 #include <ctype.h>
 #include <stdio.h>
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 
 #define NCARMAX 256
@@ -43,6 +44,15 @@ struct c_jfc_definition
     int cletype;
 };
 
+/*******************************************************************
+ *    copier une valeur, au plus NCARMAX-1 caracteres              *
+ *******************************************************************/
+static void copie_valeur(char *dest, const char *source)
+{
+    strncpy(dest, source, NCARMAX-1);
+    dest[NCARMAX-1] = '\0';
+}
+
 /*******************************************************************
  *    recuperation des parametres d'appel a un programme           *
  *******************************************************************/
@@ -71,7 +81,8 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
   void free(), exit();
 
   int c_jfc_cherche_la_clef();
-  void c_jfc_tradup(), c_jfc_traduire(),  c_jfc_les_valeurs();
+  void c_jfc_tradup(), c_jfc_traduire();
+  int c_jfc_les_valeurs();
   void sequence_appel();
   char **c_jfc_positionel();
 
@@ -81,7 +92,7 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
   int retourne_npos =  FAUX;
   char *keyname, *pointeur,*prognom;
 
-  int   pos, posc, ii, i, posmoin, npos_interne;
+  int   pos, posc, ii, i, posmoin, npos_interne = 0;
   int erreur = 0;
 
   /*  reserver la memoire et initialiser les n structures de clefs  */
@@ -109,8 +120,8 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
     c_jfc_tradup (cle[i],les_clefs[i].clenom);
     les_clefs[i].cletype = c_jfc_majmin(les_clefs[i].clenom);
     strcpy(les_clefs[i].cledef, def[i]);
-    strcpy(les_clefs[i].cleval, val[i]);
-    strcpy(les_clefs[i].clefin, val[i]);
+    copie_valeur(les_clefs[i].cleval, val[i]);
+    copie_valeur(les_clefs[i].clefin, val[i]);
   }
 
   pos = posc = -1;
@@ -158,8 +169,15 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
       {
         /*on recupere le reste des arguments positionels */
         argv++;
-        argv = c_jfc_positionel(argv,les_clefs,n,posmoin,
-                                &npos_interne,0,&erreur);
+        if (posmoin > -1)
+        {
+          argv = c_jfc_positionel(argv,les_clefs,n,posmoin,
+                                  &npos_interne,0,&erreur);
+        }
+        else if (*argv)
+        {
+          erreur++;
+        }
         if(erreur)
         {
           fprintf(stderr,"\n ***ERREUR - TROP D'ARGUMENTS POSITIONELS \n");
@@ -183,15 +201,21 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
         if (pointeur != (char *) NULL)
         {
           *argv = pointeur+1;
-          c_jfc_les_valeurs(les_clefs,argv, pos, &posc);
+          if (c_jfc_les_valeurs(les_clefs,argv, pos, &posc, n))
+          {
+            sequence_appel(les_clefs,prognom,n);
+            if (plante)
+              exit (-1);
+          }
         }
         else
         {
-          strcpy( les_clefs[posc].clefin , les_clefs[posc].cledef);
+          copie_valeur( les_clefs[posc].clefin , les_clefs[posc].cledef);
         }
       }
       else
       {
+        posc = -1;
         fprintf(stderr," ***ERREUR CLEF=%s INVALIDE***\n",keyname);
         sequence_appel(les_clefs,prognom,n);
         if (plante)
@@ -200,9 +224,14 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
     }
     else
     {
-      if ((posc != -1) && (strcmp(*(cle+posc),*(cle+pos)) == 0))
+      if ((posc != -1) && (posc < n) && (strcmp(les_clefs[posc].clenom,les_clefs[pos].clenom) == 0))
       {
-        c_jfc_les_valeurs(les_clefs, argv, pos, &posc);
+        if (c_jfc_les_valeurs(les_clefs, argv, pos, &posc, n))
+        {
+          sequence_appel(les_clefs,prognom,n);
+          if (plante)
+            exit (-1);
+        }
       }
       else
       {
@@ -248,18 +277,9 @@ int c_jfc_cherche_la_clef(char *nom,struct c_jfc_definition cle[],int n)
 {
   int i=0;
 
-  char tmpstr[256];
-
-  strcpy(tmpstr, nom);
-  while (*(tmpstr+i))
-  {
-    *(tmpstr+i) = toupper(*(tmpstr+i));
-    i++;
-  }
-
   for (i=0; i<n; i++)
   {
-    if (strcmp(tmpstr,cle[i].clenom) == 0)
+    if (strcasecmp(nom,cle[i].clenom) == 0)
     {
       return(i);
     }
@@ -272,8 +292,8 @@ int c_jfc_cherche_la_clef(char *nom,struct c_jfc_definition cle[],int n)
  *  extraire les elements d'une liste                           *
  ****************************************************************/
 
-void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
-                       int pos, int *posc)
+int c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
+                      int pos, int *posc, int n)
 
      /*
       *   pour l'element contenu dans argv, on fait les operations
@@ -286,6 +306,8 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
       *          exemple:   *argv =  =-12:34          donnera
       *                               -12 34     qui seront associes
       *                      a deux clefs contigues ayant le meme nom dans la liste des clefs.
+      *
+      *   la fonction retourne VRAI s'il y a plus de valeurs que de clefs.
       */
 {
 
@@ -294,7 +316,7 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
 
   for (nombre = 0; ;)
   {
-    if ((*posc > -1) && (strcmp(clefs[*posc].clenom,clefs[pos].clenom)) == 0)
+    if ((*posc > -1) && (*posc < n) && (strcmp(clefs[*posc].clenom,clefs[pos].clenom)) == 0)
     {
       deux_pt = strchr(*argv,':');
       if (deux_pt != (char *) NULL)
@@ -303,11 +325,11 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
         nombre = strlen(*argv);
         if (**argv == '=')
         {
-          strcpy( clefs[*posc].clefin, (*argv)+1);
+          copie_valeur( clefs[*posc].clefin, (*argv)+1);
         }
         else
         {
-          strcpy( clefs[*posc].clefin, *argv);
+          copie_valeur( clefs[*posc].clefin, *argv);
         }
         *argv =deux_pt + 1;
         (*posc)++;
@@ -316,19 +338,20 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
       {
         if (**argv == '=')
         {
-          strcpy( clefs[*posc].clefin,(*argv)+1);
+          copie_valeur( clefs[*posc].clefin,(*argv)+1);
         }
         else
         {
-          strcpy( clefs[*posc].clefin,*argv);
+          copie_valeur( clefs[*posc].clefin,*argv);
         }
         (*posc)++;
-        break;
+        return FAUX;
       }
     }
     else
     {
       fprintf(stderr,"\n***ERREUR DEBORDEMENT DE LISTE  OU MODE POSITIONNEL\n");
+      return VRAI;
     }
 
   }
@@ -497,7 +520,7 @@ char **c_jfc_positionel(char **argv, struct c_jfc_definition les_clefs[],
     }
     if(strcmp(les_clefs[posc].clenom,les_clefs[pos].clenom) == 0)
     {
-      strcpy(les_clefs[posc].clefin,*argv);
+      copie_valeur(les_clefs[posc].clefin,*argv);
     }
     else
     {
-- 
2.43.0


From 867942565d820a0eb90d373f16b5e9fdc3d59b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:19 +0000
Subject: [PATCH 179/205] fix: application variables are found by their whole
 name and end where they end

---
 src/primitives/appl_var.c      | 52 ++++++++++++++--------------------
 src/primitives/get_ccard_arg.c |  4 +--
 2 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index b7bcfa5..97ff625 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <strings.h>
 
+#include <App.h>
 #include <rmn/rpnmacros.h>
 
 #define MAX_ENTRIES 1024
@@ -33,6 +34,8 @@ void free_appl_var_table(){
     for (int i = 0; i < In_Used; i++) {
         if (appl_var_table[i].name) free(appl_var_table[i].name);
         if (appl_var_table[i].value) free(appl_var_table[i].value);
+        appl_var_table[i].name = (char *) NULL;
+        appl_var_table[i].value = (char *) NULL;
         appl_var_table[i].ncn = 0;
         appl_var_table[i].ncv = 0;
     }
@@ -44,26 +47,20 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     int i, ind = -1;
     while ((ln > 0) && (name[ln-1] == ' ')) ln--;
     while ((lv > 0) && (value[lv-1] == ' ')) lv--;
-    if (ln != 0) {
-        for (i = 0; i < In_Used; i++) {
-            if (strncmp(name,appl_var_table[i].name,ln) == 0) {
-                ind = i;
-                break;
-            }
-        }
-    } else {
-        for (i = 0; i < In_Used; i++) {
-            if (strcmp(name,appl_var_table[i].name) == 0) {
-                ind = i;
-                break;
-            }
+    for (i = 0; i < In_Used; i++) {
+        if (ln == appl_var_table[i].ncn && strncmp(name,appl_var_table[i].name,ln) == 0) {
+            ind = i;
+            break;
         }
     }
 
     if (ind != -1) {
         i = ind;
-    } else {
+    } else if (In_Used < MAX_ENTRIES) {
         i = In_Used++;
+    } else {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: more than %d variables\n",__func__,MAX_ENTRIES);
+        return;
     }
 
     if (appl_var_table[i].name) free(appl_var_table[i].name);
@@ -72,8 +69,10 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     appl_var_table[i].value = malloc(lv+1);
     appl_var_table[i].ncn = ln;
     appl_var_table[i].ncv = lv;
-    strncpy(appl_var_table[i].name,name,ln);
-    strncpy(appl_var_table[i].value,value,lv);
+    memcpy(appl_var_table[i].name,name,ln);
+    appl_var_table[i].name[ln] = '\0';
+    memcpy(appl_var_table[i].value,value,lv);
+    appl_var_table[i].value[lv] = '\0';
 }
 
 
@@ -82,19 +81,10 @@ int get_appl_var(char* varname,char *value, int ln, int lng) {
 
     while ((ln > 0) && (varname[ln-1] == ' ')) ln--;
 
-    if (ln != 0) {
-        for (i = 0; i < In_Used;  i++) {
-            if (strncasecmp(varname,appl_var_table[i].name,ln) == 0) {
-                ind = i;
-                break;
-            }
-        }
-    } else {
-        for (i = 0; i < In_Used; i++) {
-            if (strcasecmp(varname,appl_var_table[i].name) == 0) {
-                ind = i;
-                break;
-            }
+    for (i = 0; i < In_Used;  i++) {
+        if (ln == appl_var_table[i].ncn && strncasecmp(varname,appl_var_table[i].name,ln) == 0) {
+            ind = i;
+            break;
         }
     }
     if (ind == -1) return 0;
@@ -105,9 +95,9 @@ int get_appl_var(char* varname,char *value, int ln, int lng) {
 
 int32_t f77name(c_get_appl_var)(char* name, char* value, F2Cl ln, F2Cl lv) {
     int lng = get_appl_var(name, value, ln, lv);
-    int i = lng;
+    int i = abs(lng);
     /* remove null, blank pad */
-    while (i <= lv) {
+    while (i < lv) {
         value[i++] = ' ';
     }
     return (int32_t) lng;
diff --git a/src/primitives/get_ccard_arg.c b/src/primitives/get_ccard_arg.c
index 6c271c4..7e42d09 100644
--- a/src/primitives/get_ccard_arg.c
+++ b/src/primitives/get_ccard_arg.c
@@ -12,11 +12,11 @@ char* get_ccard_arg_m(
     char *pt = NULL;
     int lng, lng2;
 
-    sprintf(keyname,"%s%s%04d%s","%%",nom,ord,"%%");
+    snprintf(keyname,sizeof(keyname),"%s%s%04d%s","%%",nom,ord,"%%");
 //    Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: keyname --->>%s<<--- strlen(keyname)=%d\n",__func__,keyname,strlen(keyname));
     lng = get_appl_var(keyname, &value, strlen(keyname), 0);
     if (lng != 0) {
-        pt = malloc(-lng);
+        pt = malloc(1 - lng);
         lng2 = get_appl_var(keyname, pt, strlen(keyname), -lng);
         pt[lng2] = '\0';
     }
-- 
2.43.0


From dfeea9407627417716f2d4abe14b174e761f20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 180/205] fix: ccard refuses positional arguments when it has
 no key for them and values of unknown keys, and keeps those before --

---
 src/primitives/ccard.F90 | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/primitives/ccard.F90 b/src/primitives/ccard.F90
index e88054f..874abf1 100644
--- a/src/primitives/ccard.F90
+++ b/src/primitives/ccard.F90
@@ -84,7 +84,7 @@ subroutine ccard(incle, def, val, nbkeys, ii)
     CHARACTER * 50 cleup, cle(NKLEMAX), cletemp
     CHARACTER * 8192 argup, ARG, ccard_args, ARGtemp
     CHARACTER * 60 keyName
-    LOGICAL pasfini, plante
+    LOGICAL pasfini, plante, memecle
     INTEGER status, interne
     Integer largenv
 
@@ -135,8 +135,8 @@ subroutine ccard(incle, def, val, nbkeys, ii)
 
     ! TROUVER LA POSITION DE LA premierE CLEF - DANS LA LISTE CLE
 
-    posmoin = 1
-    posmoinc = 1
+    posmoin = 0
+    posmoinc = 0
     DO j = 1, nbkeys
         IF (cle(j) == '-') THEN
             posmoinc = j
@@ -164,6 +164,8 @@ subroutine ccard(incle, def, val, nbkeys, ii)
                 IF (trim(argup) == trim(cleup)) THEN
                     posc = j
                     pos = j
+                    ! '--' does not erase the positionnal arguments before it
+                    IF (j == posmoin .and. posmoinc > posmoin) EXIT
                     CALL qqqtrns(val(pos), def(pos), cltype(pos))
                     ! print *,'Debug+ ccard cleup=',cleup,' val(pos)=',val(pos)
                     write(keyname, errorFmt) '%%' // trim(cle(posc)), posc - pos, '%%'
@@ -176,6 +178,7 @@ subroutine ccard(incle, def, val, nbkeys, ii)
                 cllng = len_trim(argup)
                 write(app_msg,*) 'ccard: Unknow key ', argup(1:cllng)
                 call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
+                posc = 0
                 CALL qqqsap(cle, def, val, nbkeys)
                 IF (plante) THEN
                     CALL qqexit(22)
@@ -184,7 +187,9 @@ subroutine ccard(incle, def, val, nbkeys, ii)
 
         ELSE IF (status == 2) THEN
             ! argup is a value for a key
-            IF (posc /= 0 .AND. cle(pos) == cle(posc)) THEN
+            memecle = posc > 0 .and. posc <= nbkeys
+            IF (memecle) memecle = cle(pos) == cle(posc)
+            IF (memecle) THEN
                 CALL qqqtrns(argtemp, arg, cltype(posc))
                 VAL(posc) = ARGtemp
                 ! print *,'Debug+ ccard cle(posc)=',cle(posc),' ARGtemp=', trim(ARGtemp)
@@ -202,10 +207,12 @@ subroutine ccard(incle, def, val, nbkeys, ii)
 
         ELSE IF (status == 3) THEN
             ! argup is a positionnal argument
-            IF (posmoinc /= 0 .AND. cle(posmoin) == cle(posmoinc)) THEN
+            memecle = posmoinc > 0 .and. posmoinc <= nbkeys
+            IF (memecle) memecle = cle(posmoin) == cle(posmoinc)
+            IF (memecle) THEN
                 CALL qqqtrns(argtemp, arg, cltype(posmoinc))
                 val(posmoinc) = argtemp
-                write(keyname, errorFmt) '%%' // trim(cle(posmoinc)), posmoinc - pos, '%%'
+                write(keyname, errorFmt) '%%' // trim(cle(posmoinc)), posmoinc - posmoin, '%%'
                 call c_set_appl_var(keyname, argtemp)
             ELSE
                 call lib_log(APP_LIBRMN,APP_ERROR,'ccard: List overflow or positionnal mode not allowed')
@@ -214,7 +221,7 @@ subroutine ccard(incle, def, val, nbkeys, ii)
                     CALL qqexit(24)
                 END IF
             END IF
-            posmoinc = posmoinc + 1
+            IF (posmoinc > 0) posmoinc = posmoinc + 1
             interne = interne + 1
 
         ELSE IF (status == 5) THEN
-- 
2.43.0


From ba4e88b1086ab1080bb98743e223d7fd46c1639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 181/205] fix: the kind of a file shorter than the signatures
 does not depend on the file examined before

---
 src/primitives/wkoffit.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index d41f806..e4ff84c 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -233,16 +233,11 @@ static int isftnbin(
     int lng
 ) {
     int mot;
-    int32_t offset;
 
-    offset = lng + 4;
-    fseek(pf, offset, 0);
-    fread32(&mot, sizeof(int), 1, pf);
-    if (mot == lng && lng != 0) {
-        return 1;
-    } else {
-        return 0;
-    }
+    if (lng <= 0 || fseeko(pf, (off_t)lng + 4, SEEK_SET) != 0) return 0;
+    if (fread32(&mot, sizeof(int), 1, pf) != 1) return 0;
+
+    return mot == lng;
 }
 
 
@@ -329,6 +324,9 @@ int32_t c_wkoffit(
         if (lngf == 0) return retour(pf, WKF_VIDE);
 
         /* positionnement et lecture au debut du fichier */
+        /* ce qui manque aux fichiers plus courts ne correspond a aucune signature */
+        memset(cbuf, 0xFF, sizeof(cbuf));
+        memset(buffer, 0xFF, sizeof(buffer));
         fseek(pf, pos, 0);
         fread(cbuf, 1024, 1, pf);           // suite de caracteres
         fseek(pf, pos, 0);
-- 
2.43.0


From 24a692685bd83b64389ac402bb4515dbd78f8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 182/205] fix: files of 4 GB are not empty, and a blank file
 name is not searched before its start

---
 src/primitives/wkoffit.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index e4ff84c..3fe7a80 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -296,7 +296,8 @@ int32_t c_wkoffit(
     char nom2[4096], nom3[4096], *pn2, *pn3;
     char cbuf[1024];
     int buffer[1024], *ptbuf, lowc=0;
-    int32_t pos, lngf;
+    int32_t pos;
+    off_t lngf;
     int longnom;
 
     longnom = ( ( l1 <= 4095 ) ? l1 : 4095 );
@@ -310,8 +311,8 @@ int32_t c_wkoffit(
         strncpy(nom2, filePath, longnom);
     }
     nom2[longnom] = '\0';
-    while (nom2[--longnom] == ' ') {
-        nom2[longnom] = '\0';
+    while (longnom > 0 && nom2[longnom - 1] == ' ') {
+        nom2[--longnom] = '\0';
     }
     
     pf = fopen(nom2, "rb");
@@ -320,7 +321,7 @@ int32_t c_wkoffit(
     } else {
         /* positionnement a la fin du fichier */
         fseek(pf, pos, 2);
-        lngf = ftell(pf);
+        lngf = ftello(pf);
         if (lngf == 0) return retour(pf, WKF_VIDE);
 
         /* positionnement et lecture au debut du fichier */
-- 
2.43.0


From 4b29b16ff8e6da266ba17f0c422505128d7a9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 183/205] fix: short files are closed once examined, and the
 name in an RRBX header is characters, not words to swap

---
 src/primitives/wkoffit.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index 3fe7a80..2143298 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -577,7 +577,10 @@ static int isgif(
 
    if ( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
-   if (fread(magic, 6, 1, fp) != 1) return FALSE;
+   if (fread(magic, 6, 1, fp) != 1) {
+       fclose(fp);
+       return FALSE;
+   }
    if (strncmp( magic, IDGIF87, 6 ) == 0) status = WKF_GIF87;
    if (strncmp( magic, IDGIF89, 6 ) == 0) status = WKF_GIF89;
    fclose(fp);
@@ -681,9 +684,9 @@ static  int isrrbx(
     if( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
     // Read header
-    if ( fread32( &header, sizeof(Rrbxfile), 1, fp ) == 0 ) return FALSE;
-
+    size_t nb = fread( &header, sizeof(Rrbxfile), 1, fp );
     fclose(fp);
+    if ( nb != 1 ) return FALSE;
 
     if ( strncmp(&header.plotid[8], "RRBXRRUX", 8) != 0 ) return FALSE;
 
@@ -701,7 +704,10 @@ static int issun(
     if ( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
     // Read header
-    if ( fread32( &header, sizeof(struct rasterfile), 1, fp ) == 0 ) return FALSE;
+    if ( fread32( &header, sizeof(struct rasterfile), 1, fp ) != 1 ) {
+        fclose(fp);
+        return FALSE;
+    }
 
     if ( header.ras_magic != RAS_MAGIC ) {
         fclose(fp);
-- 
2.43.0


From ddbc118234c3c2ab4708e9b1f3996ee60092fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 184/205] fix: KMW files are recognised wherever their mark is,
 without dimensions, and after files of the other kind

---
 src/primitives/wkoffit.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index 2143298..51878f0 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -597,28 +597,24 @@ static int get_mode(
     int32_t *length
 ) {
      int cpt = 0;
-     int kmwndx = 0 ;
      int mode = 0;
+     int c;
      char buf[351];
-     static char sigkmw[] = "PLOT$Z";
+     static const char sigkmw[] = "PLOT$Z";
+     const int siglen = sizeof(sigkmw) - 1;
 
-     register char *data = buf;
+     char *data = buf;
      int32_t  curpos;
 
     // Verifie dans les 350 premiers caracteres si on trouve la chaine PLOT$Z qui indique un fichier KMW
-    while ( (*data = getc(fp)) != EOF && cpt++ < 350) {
-        if ( *data == sigkmw[kmwndx] ) {
-            if ( kmwndx == strlen(sigkmw) - 1) {
-                mode = 1;
-                break;
-            } else {
-                kmwndx++;
-            }
-        } else {
-            kmwndx = 0;
+    while ( cpt < 350 && (c = getc(fp)) != EOF ) {
+        buf[cpt++] = c;
+        if ( cpt >= siglen && memcmp(buf + cpt - siglen, sigkmw, siglen) == 0 ) {
+            mode = 1;
+            break;
         }
-        data++;
     }
+    data = buf + cpt;
     if (mode == 0) return mode;
 
     *depth = 1;
@@ -626,8 +622,9 @@ static int get_mode(
     *data = '\0';
     if (cpt < 10) mode = 0 ;
     if ( mode != 0 ) {
-        data = (char *)rindex(buf, '\n');
-        sscanf(data - 9, "%4d%4d%1d", width, height, depth );
+        // Les dimensions sont les 9 caracteres qui precedent la derniere fin de ligne
+        while ( data > buf && *data != '\n' ) data--;
+        if ( *data == '\n' && data - buf >= 9 ) sscanf(data - 9, "%4d%4d%1d", width, height, depth );
 
         if( mode == 1 && (*depth != 1 && *depth != 3) ) {
             *depth = 777;
@@ -659,14 +656,14 @@ static int iskmw(
     char *path
 ) {
     FILE *fp;
-    int height, width, depth;
+    int height, width, depth = 0;
     int ierr = 0;
     int32_t length;
 
     if ( (fp = fopen( path, "rb")) == NULL ) return ierr;
 
     ierr = get_mode( fp, &depth, &height, &width, &length );
-    if ( depth == 3 ) mutant_kmw = TRUE;
+    mutant_kmw = ( depth == 3 );
 
     fclose(fp) ;
 
-- 
2.43.0


From 7a08a04c34a4fa9087ede8579e1ce8c1e9a5f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:21 +0000
Subject: [PATCH 185/205] fix: the size in a file cut before it is not the one
 of the file checked before

---
 src/fstd98/xdf98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index ef91837..d37e736 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -88,7 +88,8 @@ int c_xdfcheck(
         return(ERR_NO_FILE);
     }
 
-    // Read the header
+    // Read the header; what is missing from a shorter file is zero
+    memset(&header, 0, sizeof(header));
     int num_records = fread(buf_ptr, sizeof(header), 1, fd);
 
     // Get file size
-- 
2.43.0


From 08fc01a8e22614a5a9de066948711f69c7e92049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 186/205] fix: the last directive of a file without final
 newline is read, and the line after an incomplete directive is not skipped

---
 src/whiteboard/WhiteBoard_c.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 912c6cf..1c2d991 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1829,8 +1829,11 @@ static char wb_get_line(
     //! [in] File from which to read the line
     FILE * const infile
 ) {
-    current_char = fgets(linebuffer, WB_MISC_BUFSZ, infile);
+    current_char = fgets(linebuffer, WB_MISC_BUFSZ - 1, infile);
     if (current_char) {
+       // The last line of the file may not have a newline
+       size_t lng = strlen(linebuffer);
+       if (feof(infile) && lng > 0 && linebuffer[lng - 1] != '\n') strcpy(linebuffer + lng, "\n");
        Lib_Log(APP_LIBWB,APP_INFO,"%s: >>%s\n",__func__,linebuffer);
     }
     if (current_char) {
@@ -1904,6 +1907,10 @@ static char wb_flush_line(
     //! [in] File from which to read
     FILE * const infile
 ) {
+    // What was read last may already be the end of the line
+    if (current_char != NULL && current_char > linebuffer && (current_char[-1] == '\n' || current_char[-1] == ';')) {
+        return current_char[-1];
+    }
     char c = wb_getc(infile);
     while (c != '\n' && c != EOF && c != ';') {
         c = wb_getc(infile);
-- 
2.43.0


From 3e31a3fdd7d3ca920835943a5139636b658a57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 187/205] fix: sections and directives are those of the whole
 name, not of its first letters

---
 src/whiteboard/WhiteBoard_c.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 1c2d991..a121758 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2501,8 +2501,8 @@ int c_wb_read(
             set_extra_error_message(_section, -1);
             return wb_error(WB_MSG_ERROR, WB_ERR_NOTFOUND);
         }
-        wb_get_token(token, infile, WB_MISC_BUFSZ - 1, 1);
-        notFound = (strncmp((char *)token, _section, strlen(_section)) != 0);
+        if (wb_get_token(token, infile, WB_MISC_BUFSZ - 1, 1) <= 0) continue;
+        notFound = (_section[0] != 0 && strcmp((char *)token, _section) != 0);
     }
     Lib_Log(APP_LIBWB,APP_INFO,"%s: directive section %s found\n",__func__, _section);
 
@@ -2515,14 +2515,14 @@ int c_wb_read(
     int ntoken = wb_get_token(token, infile, WB_MISC_BUFSZ - 1, 0);
     // Loop until end of section (beginning of next section or EOF)
     while (strncmp((char *)token, "@", 1) && ntoken != WB_ERROR ) {
-        if (strncmp((char *)token, "OPTIONS", 7) == 0 ) {
+        if (strcmp((char *)token, "OPTIONS") == 0 ) {
             // Default options directive
             default_dict_option = wb_options(infile, '(', ')', dict_options);
-        } else if (strncmp((char *)token, "MESSAGES", 8) == 0 ) {
+        } else if (strcmp((char *)token, "MESSAGES") == 0 ) {
             // Verbosity control directive
             message_level = wb_options(infile,'(',')',verb_options);
             Lib_LogLevelNo(APP_LIBWB,message_level);
-        } else if (strncmp((char *)token, "DEFINE", 6) == 0 && options != WB_FORBID_DEFINE ) {
+        } else if (strcmp((char *)token, "DEFINE") == 0 && options != WB_FORBID_DEFINE ) {
             // Define directive (if allowed)
             if (wb_define(wb, infile, _package) < 0) errors++;
         } else if (isalpha(token[0])) {
-- 
2.43.0


From b645b85a4f924eb558e991833b3613872fc268a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 188/205] fix: invalid options of directives are errors,
 instead of being used as options

---
 src/whiteboard/WhiteBoard_c.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index a121758..a2acf61 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2139,7 +2139,7 @@ static int wb_options(
             wb_flush_line(infile);
             return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
         }
-        options += newoption;
+        options |= newoption;
         Lib_Log(APP_LIBWB,APP_DEBUG,"%s: newoption=%d, options=%d\n",__func__,newoption,options);
 
         // expect end delimiter ( or ]  or comma ,
@@ -2235,6 +2235,7 @@ static int wb_define(
             ntoken = wb_get_token(token, infile, 2, 0);
             if (token[0] != '=' || ntoken != 1) goto error_syntax;
             options = wb_options(infile, '[', ']', dict_options);
+            if (options < 0) return options;
             opt_cmd++;
         } else if (strcmp("DESC", (char *)token) == 0 && desc_cmd == 0) {
             // DESC= subcommand
@@ -2518,10 +2519,19 @@ int c_wb_read(
         if (strcmp((char *)token, "OPTIONS") == 0 ) {
             // Default options directive
             default_dict_option = wb_options(infile, '(', ')', dict_options);
+            if (default_dict_option < 0) {
+                default_dict_option = 0;
+                errors++;
+            }
         } else if (strcmp((char *)token, "MESSAGES") == 0 ) {
             // Verbosity control directive
-            message_level = wb_options(infile,'(',')',verb_options);
-            Lib_LogLevelNo(APP_LIBWB,message_level);
+            int level = wb_options(infile,'(',')',verb_options);
+            if (level < 0) {
+                errors++;
+            } else {
+                message_level = level;
+                Lib_LogLevelNo(APP_LIBWB,message_level);
+            }
         } else if (strcmp((char *)token, "DEFINE") == 0 && options != WB_FORBID_DEFINE ) {
             // Define directive (if allowed)
             if (wb_define(wb, infile, _package) < 0) errors++;
-- 
2.43.0


From bb77a7fac2c16fa88f51d8dd2fbfacb62bf414e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 189/205] fix: values of directives are of the type of the key,
 logical ones whole, and are dubious when they are not complete

---
 src/whiteboard/WhiteBoard_c.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index a2acf61..eeed75a 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2203,6 +2203,8 @@ static int wb_define(
     }
 
     if (nread != ntoken) goto error_syntax;
+    // Logical values take 4 bytes, L1 means the same
+    if (key_type == WB_FORTRAN_BOOL && len_type == 1) len_type = 4;
     // Check type and length combination
     if ((key_type = get_typecode(key_type, len_type, len_type)) < 0) goto error_syntax;
 
@@ -2325,6 +2327,8 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
         // Scalar data
         dataptr = line->meta.data.carr;
     }
+    // The value is dubious until it is complete
+    line->meta.flags.badval = 1;
     // Get values for up to max items for key
     while(elements--) {
         ntoken = wb_get_token(buffer, infile, sizeof(buffer) - 1, 0);
@@ -2364,14 +2368,16 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
             case WB_FORTRAN_BOOL:
                 if (elementsize == 4) {
                     // FORTRAN logical
-                    if (strncmp(".FALSE.", buffer, 7) == 0 || strncmp(".F.", buffer, 3) == 0 ) *dataptr = 0;
-                    else if (strncmp(".TRUE.", buffer, 6) == 0 || strncmp(".T.", buffer, 3) == 0 ) *dataptr = 1;
+                    if (strncmp(".FALSE.", buffer, 7) == 0 || strncmp(".F.", buffer, 3) == 0 ) *(int32_t *)dataptr = 0;
+                    else if (strncmp(".TRUE.", buffer, 6) == 0 || strncmp(".T.", buffer, 3) == 0 ) *(int32_t *)dataptr = 1;
                     else goto error_type;
                 } else {
                     goto error_syntax;
                 }
                 break;
             case WB_FORTRAN_CHAR:
+                // The value must be a delimited string
+                if ((buffer[0] != '\'' && buffer[0] != '"') || ntoken < 2) goto error_type;
                 // Copy string in buffer into target, mit firs and last character, the quotes
                 nread = c_fortran_string_copy(buffer + 1, (char *)dataptr, strlen(buffer) - 2, elementsize, ' ');
                 if (nread < 0) goto error_string;
-- 
2.43.0


From 51c794b094e123b2fe9aef76bd01741c1ede1418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 190/205] fix: types without length are refused, and names too
 long do not designate the key of their first letters

---
 src/whiteboard/WhiteBoard_c.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index eeed75a..486d7ed 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2192,7 +2192,7 @@ static int wb_define(
     // Expect entry type and length
     ntoken = wb_get_token(type, infile, sizeof(type), 0);
 
-    sscanf((char *)type, "%c%d%n", &key_c, &len_type, &nread);
+    if (ntoken <= 0 || sscanf((char *)type, "%c%d%n", &key_c, &len_type, &nread) != 2) goto error_syntax;
     // Get type code
     switch(key_c) {
         case 'R' : key_type = WB_FORTRAN_REAL; break;
@@ -2286,6 +2286,12 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
     char buffer[WB_MAXSTRINGLENGTH + 3];
     unsigned char *dataptr;
 
+    if (strlen(package) + strlen(token) > WB_MAXNAMELENGTH) {
+        set_extra_error_message(token, -1);
+        wb_read_error();
+        wb_flush_line(infile);
+        return wb_error(WB_MSG_ERROR, WB_ERR_NAMETOOLONG);
+    }
     // Concatenate package name with keyname
     strncpy((char *)name, package, strlen(package));
     strncpy((char *)name + strlen(package), (char *)token, sizeof(name) - strlen(package));
-- 
2.43.0


From 4ffed48cca31e1e2166fe63fcacf34b5278f93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:23 +0000
Subject: [PATCH 191/205] fix: character values of the maximum length can be
 set by directives

---
 src/whiteboard/WhiteBoard_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 486d7ed..5d2c5ae 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2337,7 +2337,7 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
     line->meta.flags.badval = 1;
     // Get values for up to max items for key
     while(elements--) {
-        ntoken = wb_get_token(buffer, infile, sizeof(buffer) - 1, 0);
+        ntoken = wb_get_token(buffer, infile, sizeof(buffer), 0);
         if (ntoken <= 0) goto error_syntax;
 
         switch (elementtype) {
-- 
2.43.0


From 95822ee87c4f01b1f5873c0f2a187b5b26a33bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:55 +0000
Subject: [PATCH 192/205] fix: the message of a full table of application
 variables does not need App

---
 src/primitives/appl_var.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index 97ff625..cc256c3 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -1,10 +1,10 @@
 #include <stddef.h>
 #include <stdint.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <strings.h>
 
-#include <App.h>
 #include <rmn/rpnmacros.h>
 
 #define MAX_ENTRIES 1024
@@ -59,7 +59,7 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     } else if (In_Used < MAX_ENTRIES) {
         i = In_Used++;
     } else {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: more than %d variables\n",__func__,MAX_ENTRIES);
+        fprintf(stderr,"%s: more than %d variables\n",__func__,MAX_ENTRIES);
         return;
     }
 
-- 
2.43.0


From f9a5009aa85e4fed0c1d3bef3095d1fb13d9e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 193/205] fix: the fourth grid descriptor of a request is
 compared with that of the record

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 0bf0212..39328fd 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1087,7 +1087,7 @@ int C_fstmatch_parm(int handle, int datevalid, int ni, int nj, int nk,
         if( (Requests[set_nb].ig1s != ig1 && Requests[set_nb].ig1s != -1)
         ||  (Requests[set_nb].ig2s != ig2 && Requests[set_nb].ig2s != -1)
         ||  (Requests[set_nb].ig3s != ig3 && Requests[set_nb].ig3s != -1)
-        ||  (Requests[set_nb].ig4s != ig2 && Requests[set_nb].ig4s != -1)
+        ||  (Requests[set_nb].ig4s != ig4 && Requests[set_nb].ig4s != -1)
         ||  (Requests[set_nb].nis  !=  ni &&  Requests[set_nb].nis != -1)
         ||  (Requests[set_nb].njs  !=  nj &&  Requests[set_nb].njs != -1)
         ||  (Requests[set_nb].nks  !=  nk &&  Requests[set_nb].nks != -1)
-- 
2.43.0


From 85a8a606aeb6120df9d2e005895991f11b2230fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 194/205] fix: a range of two or three ip elements is not read
 beyond its end

---
 src/fstd98/excdes_new.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 39328fd..aceeee5 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -346,7 +346,7 @@ int Xc_Select_ip1(
 
     if (lnelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && lnelm == 5) {
+    if (lnelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip1s.data[1] = ip_entier[2];
         Requests[set_nb].ip1s.data[2] = ip_entier[4];
         Requests[set_nb].ip1s.in_use = DELTA;
@@ -411,7 +411,7 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
 
     if (nelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && nelm == 5) {
+    if (nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip2s.data[1] = ip_entier[2];
         Requests[set_nb].ip2s.data[2] = ip_entier[4];
         Requests[set_nb].ip2s.in_use = DELTA;
@@ -469,7 +469,7 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
 
     if (nelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && nelm == 5) {
+    if (nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip3s.data[1] = ip_entier[2];
         Requests[set_nb].ip3s.data[2] = ip_entier[4];
         Requests[set_nb].ip3s.in_use = DELTA;
-- 
2.43.0


From 6fe54258d4d59cdb15d545c1ccf8c00b3b08cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 195/205] fix: a refused request leaves the table of requests
 as it was

---
 src/fstd98/excdes_new.c | 47 ++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index aceeee5..043f822 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -286,8 +286,8 @@ static int ValidateRequestForSet(int set_nb, int des_exc, int nelm, int nelm_lt,
 {
     if (package_not_initialized) RequetesInit();
 
-    if (set_nb > MAX_requetes-1) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: (C_select_%s) set_nb=%d > MAX_requetes-1=%d\n",__func__,msg,set_nb,MAX_requetes-1);
+    if (set_nb < 0 || set_nb > MAX_requetes-1) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: (C_select_%s) set_nb=%d not between 0 and MAX_requetes-1=%d\n",__func__,msg,set_nb,MAX_requetes-1);
         return -1;
     }
 
@@ -329,10 +329,7 @@ int Xc_Select_ip1(
     const int nelm
 ) {
     int valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip1");
-    if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
-        return -1;
-    }
+    if (valid < 0) return -1;
 
     int *ip_entier = (int *)iplist;
     int lnelm = nelm;
@@ -396,10 +393,7 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
     int valid;
 
     valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip2");
-    if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
-        return -1;
-    }
+    if (valid < 0) return -1;
 
     if (ip_entier[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
     Requests[set_nb].in_use = USED;          /* set is in use */
@@ -454,10 +448,7 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
     int valid;
 
     valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip3");
-    if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
-        return -1;
-    }
+    if (valid < 0) return -1;
 
     if (ip_entier[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
     Requests[set_nb].in_use = USED;          /* set is in use */
@@ -515,7 +506,7 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   }i_or_f;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "date");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   if (date_list[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
   Requests[set_nb].in_use = USED;          /* set is in use */
@@ -583,7 +574,7 @@ int Xc_Select_etiquette(int set_nb, int des_exc, char *etiq_list[], int nelm)
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "etiquette");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].etiquettes.in_use = 1;
@@ -595,9 +586,6 @@ int Xc_Select_etiquette(int set_nb, int des_exc, char *etiq_list[], int nelm)
             __func__, set_nb, i, Requests[set_nb].etiquettes.pdata[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
@@ -620,7 +608,7 @@ int Xc_Select_nomvar(int set_nb, int des_exc, char *nomv_list[], int nelm)
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "nomvar");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].nomvars.in_use = 1;
@@ -632,9 +620,6 @@ int Xc_Select_nomvar(int set_nb, int des_exc, char *nomv_list[], int nelm)
             __func__, set_nb, i, Requests[set_nb].nomvars.pdata[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
@@ -659,7 +644,7 @@ int Xc_Select_suppl(int set_nb, int des_exc, int ni, int nj, int nk, int ig1, in
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, 1, 1, "suppl");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].in_use_supp = 1;
@@ -674,9 +659,6 @@ int Xc_Select_suppl(int set_nb, int des_exc, int ni, int nj, int nk, int ig1, in
   Requests[set_nb].grdtyps = gtyp;
 //  fprintf(stderr, "CRITSUP: ni=%d nj=%d nk=%d ig1=%d ig2=%d ig3=%d ig4=%d gtyp='%c'\n", ni, nj, nj, ig1, ig2, ig2, ig4, gtyp);
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
@@ -699,7 +681,7 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "typvar");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].typvars.in_use = 1;
@@ -711,9 +693,6 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
             __func__, set_nb, i, Requests[set_nb].typvars.pdata[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 int ReadRequestTable(char *filename)
@@ -892,7 +871,7 @@ int ReadRequestTable(char *filename)
 int C_select_groupset(int first_set_nb, int last_set_nb)
 {
   if(package_not_initialized) RequetesInit();
-  if ((first_set_nb > MAX_requetes-1) || (last_set_nb > MAX_requetes-1) || (first_set_nb > last_set_nb)) {
+  if ((first_set_nb < 0) || (first_set_nb > MAX_requetes-1) || (last_set_nb > MAX_requetes-1) || (first_set_nb > last_set_nb)) {
     Lib_Log(APP_LIBFST,APP_ERROR,"%s: first_set_nb=%d, last_set_nb=%d, MAX allowed=%d\n",__func__,first_set_nb,last_set_nb,MAX_requetes-1);
     return -1;
   }
@@ -1533,8 +1512,8 @@ int C_requetes_reset(int set_nb, int nomvars, int typvars, int etikets, int date
 {
   int j;
 
-  if (set_nb > MAX_requetes-1) {
-    Lib_Log(APP_LIBFST,APP_ERROR,"%s: set_nb=%d > MAX allowed=%d\n",__func__,set_nb,MAX_requetes-1);
+  if (set_nb < 0 || set_nb > MAX_requetes-1) {
+    Lib_Log(APP_LIBFST,APP_ERROR,"%s: set_nb=%d < 0 or > MAX allowed=%d\n",__func__,set_nb,MAX_requetes-1);
     return -1;
   }
 
-- 
2.43.0


From 89968be531acc9b4ac3f821180772f5a1ee837cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 196/205] fix: a list of dates that is not valid leaves the
 requests as they were

---
 src/fstd98/excdes_new.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 043f822..a8233d3 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -509,6 +509,20 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   if(valid < 0) return -1;
 
   if (date_list[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
+
+  for (i=0; i<nelm && nelm > 1; i++) {     /* nothing is changed by a list that is not valid */
+    if(date_list[i] == READLX_DELTA) {                 /* DELTA keyword */
+      delta++;
+      if(delta > 1 || range == 0 ) return -1;             /* more than one delta keyword or delta encountered before @  */
+      if(i >= nelm-1) return -1;                          /* no value follows delta */
+      if(i != 3) return -1;                               /* must be date1 @ date2 delta hours */
+    }
+    if(date_list[i] == READLX_RANGE) {   /* @  keyword   */
+      range++;
+      if(range>1 || i>1) return -1;             /* more than one @ keyword or @ keyword too far in line */
+    }
+  }
+
   Requests[set_nb].in_use = USED;          /* set is in use */
   Requests[set_nb].dates.in_use = VALUE;    /* item in set is in use */
   Requests[set_nb].dates.delta = 0;         /* delta not supported */
@@ -522,10 +536,6 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   for (i=0; i<nelm; i++) {
     Requests[set_nb].dates.data[i] = date_list[i];
     if(date_list[i] == READLX_DELTA) {                 /* DELTA keyword */
-      delta++;
-      if(delta > 1 || range == 0 ) goto error ;           /* more than one delta keyword or delta encountered before @  */
-      if(i >= nelm-1) goto error ;                        /* no value follows delta */
-      if(i != 3) goto error ;                             /* must be date1 @ date2 delta hours */
       Requests[set_nb].dates.in_use = DELTA;
       Requests[set_nb].dates.nelm = 3;
       i_or_f.i = date_list[i+1];
@@ -535,9 +545,6 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
       Requests[set_nb].dates.delta = i_or_f.i;
     }
     if(date_list[i] == READLX_RANGE) {   /* @  keyword   */
-      range++;
-      if(range>1 || i>1) goto error ;           /* more than one @ keyword or @ keyword too far in line */
-//      if(i > 1) goto error ;                    /*  @ cannot be found beyond position 2 */
       Requests[set_nb].dates.in_use = RANGE ;
 //      if(i==0) Requests[set_nb].dates.data[0] = 0;              /* @ date .... */
       if(i==1 && nelm>2) {                                            /* date @ date  or date @ delta */
@@ -549,9 +556,6 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
             __func__, set_nb, i, Requests[set_nb].dates.data[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
-- 
2.43.0


From a5a4c79e63ab3b318f09b3686865b07133d3f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 197/205] fix: dates a whole number of steps away match when
 the remainder rounds just below the step

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index a8233d3..0cf15fb 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1177,7 +1177,7 @@ int C_fstmatch_parm(int handle, int datevalid, int ni, int nj, int nk,
             f77name(difdatr)(&date, &fin, &diff_fin);
             remainder = fmod(diff_deb, delta8);
             Lib_Log(APP_LIBFST, APP_EXTRA, "%s: diff_deb=%f diff_fin=%f modulo=%f\n", __func__, diff_deb, diff_fin, remainder);
-            if ((diff_deb >= 0.) && (diff_fin <= 0.) && (remainder <= (5.0/3600.))) {
+            if ((diff_deb >= 0.) && (diff_fin <= 0.) && ((remainder <= (5.0/3600.)) || (remainder >= delta8 - (5.0/3600.)))) {
               amatch = 1;
               Lib_Log(APP_LIBFST, APP_DEBUG, "%s: C_fst_match_req match %s\n", __func__, desire_exclure);
             }
-- 
2.43.0


From 65fad8cdf1d64f73e1ceeabdb24bb76ab64f34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 198/205] fix: two codes of a zero level match each other in a
 request

---
 src/fstd98/excdes_new.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 0cf15fb..1efca48 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -998,7 +998,8 @@ static int match_ip(int in_use, int nelm, int *data, int ip1, int translatable)
       ip = data[i];
       ConvertIp(&ip, &p2, &kind2, mode); /* convert match reference */
       if(kind1 != kind2) continue;       /* not same kind, no match */
-      if(p2 == 0 && p1 != p2) continue ; /* if one is 0, both must be, no match */
+      if(p1 == p2) return 1;             /* equal values, zero included */
+      if(p2 == 0) continue ;             /* if one is 0, both must be, no match */
       delta = 1.0 - p1/p2 ;
       if(delta < 0) delta = -delta;    /* abs(relative error)  */
       if( delta < 0.000001) return 1 ; /* we have a match */
-- 
2.43.0


From 5299869b77419d2dffc0e69d2c7c4108c1c456b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 199/205] fix: strings of a request that are longer than the
 field are terminated

---
 src/fstd98/excdes_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 1efca48..082abca 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -586,6 +586,7 @@ int Xc_Select_etiquette(int set_nb, int des_exc, char *etiq_list[], int nelm)
   Requests[set_nb].etiquettes.nelm = nelm;
   for (i=0; i<nelm; i++) {
     strncpy(Requests[set_nb].etiquettes.pdata[i], etiq_list[i], 13);
+    Requests[set_nb].etiquettes.pdata[i][12] = '\0';
     Lib_Log(APP_LIBFST, APP_DEBUG, "%s: Requests[%i].etiquettes.pdata[%i]=%s\n",
             __func__, set_nb, i, Requests[set_nb].etiquettes.pdata[i]);
   }
@@ -620,6 +621,7 @@ int Xc_Select_nomvar(int set_nb, int des_exc, char *nomv_list[], int nelm)
   Requests[set_nb].nomvars.nelm = nelm;
   for (i=0; i<nelm; i++) {
     strncpy(Requests[set_nb].nomvars.pdata[i], nomv_list[i], 5);
+    Requests[set_nb].nomvars.pdata[i][4] = '\0';
     Lib_Log(APP_LIBFST, APP_DEBUG, "%s: Requests[%i].nomvars.pdata[%i]=%s\n",
             __func__, set_nb, i, Requests[set_nb].nomvars.pdata[i]);
   }
@@ -693,6 +695,7 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
   Requests[set_nb].typvars.nelm = nelm;
   for (i=0; i<nelm; i++) {
     strncpy(Requests[set_nb].typvars.pdata[i], typv_list[i], 3);
+    Requests[set_nb].typvars.pdata[i][2] = '\0';
     Lib_Log(APP_LIBFST, APP_DEBUG, "%s: Requests[%i].typvars.pdata[%i]=%s\n",
             __func__, set_nb, i, Requests[set_nb].typvars.pdata[i]);
   }
-- 
2.43.0


From b518d24ccefb8f688c9e6f670966094027525d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:25 +0000
Subject: [PATCH 200/205] fix: files of requests may use set 0, lists of 50 and
 steps; malformed ones are refused

---
 src/fstd98/excdes_new.c | 101 +++++++++++++++++++++++++---------------
 1 file changed, 64 insertions(+), 37 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 082abca..2bc05b6 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -346,6 +346,7 @@ int Xc_Select_ip1(
     if (lnelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip1s.data[1] = ip_entier[2];
         Requests[set_nb].ip1s.data[2] = ip_entier[4];
+        Requests[set_nb].ip1s.nelm = 3;
         Requests[set_nb].ip1s.in_use = DELTA;
         // printf("RANGE+DELTA detected %d %d %d\n", Requests[set_nb].ip1s.data[0], Requests[set_nb].ip1s.data[1], Requests[set_nb].ip1s.data[2]);
         return 0;
@@ -408,6 +409,7 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
     if (nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip2s.data[1] = ip_entier[2];
         Requests[set_nb].ip2s.data[2] = ip_entier[4];
+        Requests[set_nb].ip2s.nelm = 3;
         Requests[set_nb].ip2s.in_use = DELTA;
     // printf("RANGE+DELTA detected %d %d %d\n", Requests[set_nb].ip2s.data[0], Requests[set_nb].ip2s.data[1], Requests[set_nb].ip2s.data[2]);
         return 0;
@@ -463,6 +465,7 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
     if (nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip3s.data[1] = ip_entier[2];
         Requests[set_nb].ip3s.data[2] = ip_entier[4];
+        Requests[set_nb].ip3s.nelm = 3;
         Requests[set_nb].ip3s.in_use = DELTA;
     // printf("RANGE+DELTA detected %d %d %d\n", Requests[set_nb].ip3s.data[0], Requests[set_nb].ip3s.data[1], Requests[set_nb].ip3s.data[2]);
         return 0;
@@ -702,6 +705,27 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
   return 0;
 }
 
+//! Find what follows a character
+//! \return Pointer to what follows the first c in text, NULL if there is none
+static char *after(char * const text, const char c)
+{
+    char * const found = text ? strchr(text, c) : NULL;
+    return found ? found + 1 : NULL;
+}
+
+
+//! Read a list of integers separated by commas
+//! \return 0 if there were n integers, -1 otherwise
+static int read_integers(char *text, int * const values, const int n)
+{
+    for (int i = 0; i < n; i++) {
+        if (i > 0) text = after(text, ',');
+        if (text == NULL || sscanf(text, "%d", values + i) != 1) return -1;
+    }
+    return 0;
+}
+
+
 int ReadRequestTable(char *filename)
 {
     char line[4096];
@@ -709,10 +733,10 @@ int ReadRequestTable(char *filename)
     char *cptr;
     int dirset;
     char s1[16], s2[16], s3[16];
-    char sar[40][13];
-    char *sarp[41];
+    char sar[MAX_Nlist][13];
+    char *sarp[MAX_Nlist+1];
     int nvalues;
-    int a[100];
+    int a[MAX_Nlist];
     int i, j;
     char gtyp;
     int rvd; /* range, value, delta */
@@ -732,7 +756,10 @@ int ReadRequestTable(char *filename)
         return -1;
     }
     readnext:
-    cptr=fgets(line, sizeof(line), input);
+    if (fgets(line, sizeof(line), input) == NULL) {    /* the last 0 is missing */
+        fclose(input);
+        return 0;
+    }
     //  fprintf(stderr, "header=%s", line);
     dirset=0;
     s1[0]='\000';
@@ -741,19 +768,18 @@ int ReadRequestTable(char *filename)
     nvalues=0;
 
     sscanf(line, "%d", &dirset);
-    if(dirset==0) {
+    cptr = after(line, '\'');
+    if(dirset==0 && cptr == NULL) {                    /* no request follows this 0 */
         fclose(input);
         return 0;
     }
-    cptr=line;
-    while(*cptr != '\'' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%s", s1);
-    while(*cptr != ',' ) cptr++ ; while(*cptr != '\'' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%s", s2);
-    while(*cptr != ',' ) cptr++ ; while(*cptr != '\'' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%s", s3);
-    while(*cptr != ',' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%d", &nvalues);
+    if (cptr) sscanf(cptr, "%15s", s1);
+    cptr = after(after(cptr, ','), '\'');
+    if (cptr) sscanf(cptr, "%15s", s2);
+    cptr = after(after(cptr, ','), '\'');
+    if (cptr) sscanf(cptr, "%15s", s3);
+    cptr = after(cptr, ',');
+    if (cptr == NULL || sscanf(cptr, "%d", &nvalues) != 1 || nvalues < 1 || nvalues > MAX_Nlist) goto malformed;
     //  fprintf(stderr, "%d, '%s', '%s', '%s', %d\n", dirset, s1, s2, s3, nvalues);
     rvd = 0 ; /* not used */
     if(s3[0] == 'v') rvd = VALUE;
@@ -761,16 +787,14 @@ int ReadRequestTable(char *filename)
     if(s3[0] == 'd') rvd = DELTA;
     dex = s1[0] == 'D' ? DESIRE : EXCLURE ;
 
-    cptr=fgets(line, sizeof(line), input);
+    if (rvd == RANGE && nvalues < 2) goto malformed;
+    if (rvd == DELTA && nvalues < 3) goto malformed;
+    if (fgets(line, sizeof(line), input) == NULL) goto malformed;
     cptr = line;
     //  fprintf(stderr, "reading data\n");
 
     if(s2[0]=='D') {                            /*  Date */
-        sscanf(cptr, "%d", a);
-        for (i=1;i<nvalues;i++) {
-        while(*cptr != ',' ) cptr++ ; cptr++ ;
-        sscanf(cptr, "%d", a+i);
-        }
+        if (read_integers(cptr, a, nvalues) != 0) goto malformed;
         if(rvd == RANGE && a[0] >= 0 && a[1] >= 0) {
         nvalues=3;
         a[2]=a[1];
@@ -793,17 +817,19 @@ int ReadRequestTable(char *filename)
            fprintf(stderr, "\n");
         }
     }else if(s2[0]=='I') {                       /* IP1/2/3 */
-        sscanf(cptr, "%d", a);
-        for (i=1;i<nvalues;i++) {
-        while(*cptr != ',' ) cptr++ ; cptr++ ;
-        sscanf(cptr, "%d", a+i);
-        }
+        if (read_integers(cptr, a, nvalues) != 0) goto malformed;
         if(rvd == RANGE) {
         nvalues=3;
         a[2]=a[1];
         a[1]=READLX_RANGE;
         }
-        if(rvd == DELTA) nvalues = 0;
+        if(rvd == DELTA) {
+        nvalues=5;
+        a[4]=a[2];
+        a[3]=READLX_DELTA;
+        a[2]=a[1];
+        a[1]=READLX_RANGE;
+        }
         if(s2[2]=='1') status = Xc_Select_ip1(dirset, dex, a, nvalues);
         if(s2[2]=='2') status = Xc_Select_ip2(dirset, dex, a, nvalues);
         if(s2[2]=='3') status = Xc_Select_ip3(dirset, dex, a, nvalues);
@@ -815,26 +841,24 @@ int ReadRequestTable(char *filename)
         fprintf(stderr, "\n");
         }
     }else if(s2[0]=='X'){                           /* Xtra  */
-        sscanf(cptr, "%d", a);
-        for (i=1;i<8;i++) {
-        while(*cptr != ',' ) cptr++ ; cptr++ ;
-        sscanf(cptr, "%d", a+i);
-        }
-        while(*cptr != '\'' ) cptr++ ; cptr++ ;
+        if (read_integers(cptr, a, 7) != 0) goto malformed;
+        cptr = after(cptr, '\'');
+        if (cptr == NULL) goto malformed;
         gtyp=*cptr;
         status = Xc_Select_suppl(dirset, dex, a[0], a[1], a[2], a[3], a[4], a[5], a[6], gtyp);
         if(status != 0) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: bad value(s) in supplementary criteria\n",__func__);
-        for (i=0;i<8;i++) {
+        for (i=0;i<7;i++) {
             fprintf(stderr, " %d", a[i]);
         }
         fprintf(stderr, " %c\n", gtyp);
     }
     }else if(s2[0]=='N' || s2[0]=='T' || s2[0]=='E'){   /* Nomvar, Typvar or Etiket */
         for (i=0;i<nvalues;i++) {
-        while(*cptr != '\'' ) cptr++ ; cptr++ ;
-        j=0;
-        while(*cptr != '\'' ) sar[i][j++]=*cptr++; cptr++ ;
+        char * const end = strchr((cptr = after(cptr, '\'')) ? cptr : line, '\'');
+        if (cptr == NULL || end == NULL) goto malformed;
+        for (j=0; j < 12 && cptr + j < end; j++) sar[i][j] = cptr[j];
+        cptr = end + 1;
         sar[i][j]='\000';
         sarp[i] = sar[i];
         }
@@ -859,7 +883,10 @@ int ReadRequestTable(char *filename)
         return -1;
     }
     goto readnext;
-    return 0;
+    malformed:
+    fclose(input);
+    Lib_Log(APP_LIBFST,APP_ERROR,"%s: malformed directive in '%s': %.60s\n",__func__,filename,line);
+    return -1;
 }
 
 
-- 
2.43.0


From 77734eb9f743434f354d4eacab2f1d97bba7f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:59 +0000
Subject: [PATCH 201/205] fix: an open range of ip values stops at the limit it
 has

---
 src/fstd98/excdes_new.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 2bc05b6..4721174 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -991,6 +991,7 @@ static int match_ip(int in_use, int nelm, int *data, int ip1, int translatable)
       p3 = p1;
       kind3 = kind1;
     }
+    if(p2 > p3 && (data[0] < 0 || data[1] < 0)) return 0;   // beyond the only limit of an open range
     if(p2 > p3){                          // make sure that p2 < p3
       p0 = p3 ; p3 = p2 ; p2 = p0 ;       // swap p2 and p3 (no pint in swapping kinds as they MUST match
     }
-- 
2.43.0


From 0eb5151ace710ed7c2460edcbdcf4f37dd7aa3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:59 +0000
Subject: [PATCH 202/205] fix: each initialization of the requests closes the
 debug file of the one before

---
 src/fstd98/excdes_new.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 4721174..6544159 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1621,6 +1621,7 @@ int C_requetes_reset(int set_nb, int nomvars, int typvars, int etikets, int date
 void C_requetes_init(char *requetes_filename, const char * const debug_filename)
 {
     /*  debug_filename = getenv("DEBUGFILE"); */
+    if (stddebug != NULL) fclose(stddebug);
     if (debug_filename != NULL)
         stddebug = fopen(debug_filename, "w");
     else
-- 
2.43.0


From d6b43172188bb5e36d26921890285ffb9f727919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 203/205] fix: copies between Fortran and C strings do not read
 outside the source

---
 src/primitives/ftn2c_helper_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/ftn2c_helper_c.c b/src/primitives/ftn2c_helper_c.c
index 9bc0c9f..870ebf9 100644
--- a/src/primitives/ftn2c_helper_c.c
+++ b/src/primitives/ftn2c_helper_c.c
@@ -35,10 +35,10 @@ int ftn2c_string_copy(
 ) {
     int i;
     // If there is a null before lsrc characters in the source string, act as if it was terminated at null
-    for (i = 0 ; src[i] != 0 && i < lsrc; i++);
+    for (i = 0 ; i < lsrc && src[i] != 0; i++);
     lsrc = i;
     // Ignore trailing blanks in source string
-    while (src[lsrc - 1] == ' ') lsrc--;
+    while (lsrc > 0 && src[lsrc - 1] == ' ') lsrc--;
     // No destination, just return trimmed source length
     if (dest == NULL) return lsrc;
     // Trimmed source longer than destination!
-- 
2.43.0


From abf522ed8ebb4d488de563e90b9a365f153a21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 204/205] fix: the base name of a path without a / is the whole
 path

---
 src/primitives/clib_interface.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index b5db8b1..2ca34b6 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -730,16 +730,23 @@ F77_INTEGER CLIB_F77NAME(clib_basename)(
     char *defStr = " ";
     // fill destination with blanks, in case ...
     FTN2C_CSTR2FSTR(defStr, mybasename, 1, mybasename_length);
-    mybasename[0] = '/';
-    int lpath = path_length - 1;
-    if ( lpath == 1 && path[0] == '/' ) {
+    // the path without the blanks that follow it
+    int lpath = path_length;
+    while (lpath > 0 && path[lpath - 1] == ' ') {
+        lpath--;
+    }
+
+    if ( lpath == 1 && path[0] == '/' && mybasename_length > 0 ) {
+        mybasename[0] = '/';
         return CLIB_OK;
     }
-    // scan backwards to find last '/' in path
-    while (lpath > 0 && path[lpath] != '/') {
+
+    // scan backwards to find what follows the last '/' in path, if any
+    while (lpath > 0 && path[lpath - 1] != '/') {
         lpath--;
     }
-    F77_INTEGER status = FTN2C_CSTR2FSTR(path + lpath + 1, mybasename, path_length - lpath - 1, mybasename_length);
+
+    F77_INTEGER status = FTN2C_CSTR2FSTR(path + lpath, mybasename, path_length - lpath, mybasename_length);
     return status < 0 ? CLIB_ERROR : CLIB_OK;
 }
 
-- 
2.43.0


From e64c054f9e0acc2e639afe92249fd2bd5d747c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 205/205] fix: a hierarchy of directories is not made through a
 file of the same name

---
 src/primitives/clib_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index 2ca34b6..8ca4a3d 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -984,7 +984,8 @@ int mkpath(char *s, mode_t mode){
     if ((mkpath(up, mode) == -1) && (errno != EEXIST))
             goto out;
 
-    if ((mkdir(path, mode) == -1) && (errno != EEXIST))
+    struct stat buf;
+    if ((mkdir(path, mode) == -1) && ((errno != EEXIST) || stat(path, &buf) || !S_ISDIR(buf.st_mode)))
             rv = -1;
     else
             rv = 0;
-- 
2.43.0

