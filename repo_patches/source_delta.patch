From de08839511e5a66a0e33801529848ad3df0eff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 01/33] fix: IntInf.pow with base 1 or ~1 and a negative
 exponent

---
 base/system/smlnj/init/target32-core-intinf.sml | 3 ++-
 base/system/smlnj/init/target64-core-intinf.sml | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/system/smlnj/init/target32-core-intinf.sml b/base/system/smlnj/init/target32-core-intinf.sml
index ea5dc86..7e09d96 100644
--- a/base/system/smlnj/init/target32-core-intinf.sml
+++ b/base/system/smlnj/init/target32-core-intinf.sml
@@ -645,6 +645,7 @@ structure CoreIntInf :> sig
 
     fun natpow (_, 0) = [0w1]
       | natpow ([], n) = if InLine.int_lt (n, 0) then raise Assembly.Div else []
+      | natpow ([0w1], _) = [0w1]
       | natpow (x, n) =
 	  if InLine.int_lt (n, 0) then []
 	  else let fun exp (m, 0w0) = [0w1]
@@ -666,7 +667,7 @@ structure CoreIntInf :> sig
 	    val BI { negative, digits } = concrete i
 	in
 	    abstract (bi { negative = negative andalso
-	                              InLine.int_eql (InLine.int_rem (n, 2), 1),
+	                              InLine.<> (InLine.int_rem (n, 2), 0),
 			   digits = natpow (digits, n) })
 	end
 
diff --git a/base/system/smlnj/init/target64-core-intinf.sml b/base/system/smlnj/init/target64-core-intinf.sml
index dac21d1..350dc69 100644
--- a/base/system/smlnj/init/target64-core-intinf.sml
+++ b/base/system/smlnj/init/target64-core-intinf.sml
@@ -559,6 +559,7 @@ structure CoreIntInf :> sig
 
     fun natpow (_, 0) = [0w1]
       | natpow ([], n) = if InLine.int_lt (n, 0) then raise Assembly.Div else []
+      | natpow ([0w1], _) = [0w1]
       | natpow (x, n) =
 	  if InLine.int_lt (n, 0) then []
 	  else let fun exp (m, 0w0) = [0w1]
@@ -580,7 +581,7 @@ structure CoreIntInf :> sig
 	    val BI { negative, digits } = concrete i
 	in
 	    abstract (bi { negative = negative andalso
-	                              InLine.int_eql (InLine.int_rem (n, 2), 1),
+	                              InLine.<> (InLine.int_rem (n, 2), 0),
 			   digits = natpow (digits, n) })
 	end
 
-- 
2.43.0


From 03a0e805b90ec7c1616deb326cd4d9543ad0a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 02/33] fix: fcntl_gfl reads the file status flags, not the
 descriptor flags

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From 8b9d8343c521c0a17f2df8ff225be135b7a2c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 03/33] fix: fcntl_l gives its result record a valid descriptor

---
 base/runtime/c-libs/posix-io/fcntl_l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..8567513 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC (5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
-- 
2.43.0


From a3fa180a6b7d1aca775f7bb9dbef90defce82b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 04/33] fix: lseek returns the exception it raises

---
 base/runtime/c-libs/posix-io/lseek.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
-- 
2.43.0


From a7416dd3aea5862d6d0bb4b8d18cb84cc42f674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 05/33] fix: INT_CtoML does not overflow on 32-bit C integers

---
 base/runtime/include/ml-values.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-values.h b/base/runtime/include/ml-values.h
index e6af1e2..7f9d9cc 100644
--- a/base/runtime/include/ml-values.h
+++ b/base/runtime/include/ml-values.h
@@ -38,7 +38,7 @@
 #endif
 
 #define INT_MLtoC(n)		(((Int_t)(n)) >> 1)
-#define INT_CtoML(n)		((ml_val_t)(Int_t)(2*(n) + 1))
+#define INT_CtoML(n)		((ml_val_t)(2*(Int_t)(n) + 1))
 #define PTR_MLtoC(ty,p)		PTR_CAST(ty *, p)
 #define PTR_CtoML(p)		PTR_CAST(ml_val_t, p)
 #else
-- 
2.43.0


From cb8d75a2599a574ba65770e0fb5fe81270ff2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 06/33] fix: tcgetattr gives its result record a valid
 descriptor

---
 base/runtime/c-libs/posix-tty/tcgetattr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
-- 
2.43.0


From eff5f73c7c15a45be2e4eb89194d77bef7662be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 07/33] fix: tcgetpgrp reports errors

---
 base/runtime/c-libs/posix-tty/tcgetpgrp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetpgrp.c b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
index 9da3719..babbd8a 100644
--- a/base/runtime/c-libs/posix-tty/tcgetpgrp.c
+++ b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
@@ -19,6 +19,10 @@ ml_val_t _ml_P_TTY_tcgetpgrp (ml_state_t *msp, ml_val_t arg)
 {
     int         fd = INT_MLtoC(arg);
 
-    return INT_CtoML(tcgetpgrp(fd));
+    int         sts;
+
+    sts = tcgetpgrp(fd);
+
+    CHK_RETURN(msp, sts)
 
 } /* end of _ml_P_TTY_tcgetpgrp */
-- 
2.43.0


From 045b893187e75e2a013580929048fa786cf0fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 08/33] fix: uname returns the exception it raises

---
 base/runtime/c-libs/posix-procenv/uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-procenv/uname.c b/base/runtime/c-libs/posix-procenv/uname.c
index d7a3370..acb7618 100644
--- a/base/runtime/c-libs/posix-procenv/uname.c
+++ b/base/runtime/c-libs/posix-procenv/uname.c
@@ -25,7 +25,7 @@ ml_val_t _ml_P_ProcEnv_uname (ml_state_t *msp, ml_val_t arg)
     sts = uname (&name);
 
     if (sts == -1)
-	RAISE_SYSERR(msp, sts);
+	return RAISE_SYSERR(msp, sts);
 
 /** NOTE: we should do something about possible GC!!! **/
 
-- 
2.43.0


From 63ac9a54ad590f740598665abceeb9bd0ca3cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 09/33] fix: getaddrfamily: the family field is in host byte
 order

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..8d8c4dc 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,6 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 0b5bd0e9f2d25faa956aacc1693927edc80584b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 10/33] fix: getservbyport converts the port to network byte
 order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..1a5c4c5 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons((unsigned short)REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 25b7bb9afcd65cb3c8ee45e380ef5d0029c0e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 11/33] fix: strings returned by read are zero terminated

---
 base/runtime/c-libs/posix-io/read.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..ab96f90 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -22,13 +22,14 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     int		    fd = REC_SELINT(arg, 0);
     int		    nbytes = REC_SELINT(arg, 1);
     ml_val_t	    vec, res;
-    int		    n;
+    int		    m, n;
+    char	    *s;
 
     if (nbytes == 0)
 	return ML_string0;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
     n = read (fd, PTR_MLtoC(char, vec), nbytes);
     if (n < 0)
 	return RAISE_SYSERR(msp, n);
@@ -37,9 +38,16 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
+  /* pad the last word with zero bytes, at least one: the result is zero terminated */
+    s = PTR_MLtoC(char, vec);
+    m = n;
+    do {
+	s[m++] = '\0';
+    } while ((m & (WORD_SZB-1)) != 0);
+
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 
     return res;
-- 
2.43.0


From 936448402f30285acea0e28192c373f1ed1960fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 12/33] fix: strings returned by recv are zero terminated

---
 base/runtime/c-libs/smlnj-sockets/recv.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index a3f4180..6707572 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -29,7 +29,7 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     s = PTR_MLtoC(char, vec);
     n = recv (sock, s, nbytes, flag);
@@ -42,13 +42,14 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
   /* pad the last word of the vector with zero bytes so that string pattern
    * matching on the result will work.
    */
-    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
-	s[m] = '\0';
-    }
+    m = n;
+    do {
+	s[m++] = '\0';
+    } while ((m & (WORD_SZB-1)) != 0);
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
-- 
2.43.0


From dfad6912ecb8ad6840c0902ee629088965a5cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 13/33] fix: recvfrom shrinks its buffer before allocating the
 address, and zero terminates it

---
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..0aa92d3 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -24,13 +24,14 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     int		nbytes = REC_SELINT(arg, 1);
     int		flag = 0;
     ml_val_t	vec;
-    int		n;
+    int		m, n;
+    char	*s;
 
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     n = recvfrom (
 	sock, PTR_MLtoC(char, vec), nbytes, flag,
@@ -39,18 +40,24 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
 
 	if (n == 0)
 	    res = ML_string0;
 	else {
 	    if (n < nbytes)
 	      /* we need to shrink the vector */
-		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
+	  /* pad the last word with zero bytes, at least one: the result is zero terminated */
+	    s = PTR_MLtoC(char, vec);
+	    m = n;
+	    do {
+		s[m++] = '\0';
+	    } while ((m & (WORD_SZB-1)) != 0);
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
-- 
2.43.0


From 5135b86001a18d9c489adea76e8bcc315699c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 14/33] fix: tounixaddr rejects a path that does not fit the
 address

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..063296e 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -26,6 +26,9 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path))
+	return RAISE_ERROR(msp, "path too long");
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From 2a05235234368dd6d7bed643fbba3ea70ea9803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 15/33] fix: exece sizes its vector for the environment too;
 argument vectors live outside the ML heap

---
 base/runtime/c-libs/posix-process/exec.c  |  6 ++++--
 base/runtime/c-libs/posix-process/exece.c | 12 +++++++++---
 base/runtime/c-libs/posix-process/execp.c |  6 ++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..aafbb13 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -28,14 +28,16 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    argv = cp = (char **)MALLOC((nArgs + 1) * sizeof(char *));
+    if (cp == NIL(char **))
+        return RAISE_ERROR(msp, "out of malloc memory");
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+    FREE(argv);
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..a64cf82 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -23,14 +23,19 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     char            **argv, **envp;
     ml_val_t        p;
     char            **cp;
-    int             nArgs;
+    int             nArgs, nEnv;
 
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    for (nEnv = 0, p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nEnv++;
+    }
+
+    argv = cp = (char **)MALLOC((nArgs + nEnv + 2) * sizeof(char *));
+    if (cp == NIL(char **))
+        return RAISE_ERROR(msp, "out of malloc memory");
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
@@ -42,6 +47,7 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the envp[] */
 
     sts = execve(STR_MLtoC(path), argv, envp);
+    FREE(argv);
 
     CHK_RETURN (msp, sts)
 
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..1129ad1 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -28,14 +28,16 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    argv = cp = (char **)MALLOC((nArgs + 1) * sizeof(char *));
+    if (cp == NIL(char **))
+        return RAISE_ERROR(msp, "out of malloc memory");
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execvp(STR_MLtoC(file), argv);
+    FREE(argv);
 
     CHK_RETURN (msp, sts)
 
-- 
2.43.0


From 7c7f998522c647705cb10f3a67583dbd797512d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 16/33] fix: readlink reads a long link into the buffer
 allocated for it

---
 base/runtime/c-libs/posix-filesys/readlink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-filesys/readlink.c b/base/runtime/c-libs/posix-filesys/readlink.c
index f23ff08..0560fb7 100644
--- a/base/runtime/c-libs/posix-filesys/readlink.c
+++ b/base/runtime/c-libs/posix-filesys/readlink.c
@@ -65,7 +65,7 @@ ml_val_t _ml_P_FileSys_readlink (ml_state_t *msp, ml_val_t arg)
         /* Try the readlink again. Give up on error or if len is still bigger
          * than the buffer size.
          */
-	len = readlink(path, buf, len);
+	len = readlink(path, nbuf, nlen);
 	if (len < 0)
 	    return RAISE_SYSERR(msp, len);
 	else if (len >= nlen)
-- 
2.43.0


From 2d920cb10419aba94778301e35e602064ce31765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 17/33] fix: string lists are built before other objects, since
 building them may collect

---
 base/runtime/c-libs/posix-sysdb/getgrgid.c         | 3 ++-
 base/runtime/c-libs/posix-sysdb/getgrnam.c         | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbyname.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbynum.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getrpcbyname.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getrpcbynum.c    | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkhostent.c | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mknetent.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkservent.c | 3 ++-
 9 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/posix-sysdb/getgrgid.c b/base/runtime/c-libs/posix-sysdb/getgrgid.c
index 6eaa30f..6cf16d4 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrgid.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrgid.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrgid (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* building the list may collect, so it comes first */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (SysWord_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/posix-sysdb/getgrnam.c b/base/runtime/c-libs/posix-sysdb/getgrnam.c
index 22a35bc..6384ed5 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrnam.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrnam.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrnam (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* building the list may collect, so it comes first */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (Word_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
index 60696b8..e83dfda 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbyname (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
index 98dff50..acab7b9 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbynum (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c b/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
index 41710ed..3279716 100644
--- a/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
@@ -28,8 +28,9 @@ ml_val_t _ml_NetDB_getrpcbyname (ml_state_t *msp, ml_val_t arg)
     if (rentry == NIL(struct rpcent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, rentry->r_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList (msp, rentry->r_aliases);
+	name = ML_CString (msp, rentry->r_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(rentry->r_number));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c b/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
index f48c4bc..b198bfd 100644
--- a/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
@@ -31,8 +31,9 @@ ml_val_t _ml_NetDB_getrpcbynum (ml_state_t *msp, ml_val_t arg)
     if (rentry == NIL(struct rpcent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, rentry->r_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList (msp, rentry->r_aliases);
+	name = ML_CString (msp, rentry->r_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(rentry->r_number));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
index 4fab8f0..3deab1b 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
@@ -29,8 +29,9 @@ ml_val_t _util_NetDB_mkhostent (ml_state_t *msp, struct hostent *hentry)
 	ml_val_t	name, aliases, af, addr, addrs, res;
 	int		nAddrs, i;
 
-	name = ML_CString(msp, hentry->h_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList(msp, hentry->h_aliases);
+	name = ML_CString(msp, hentry->h_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	for (nAddrs = 0;  hentry->h_addr_list[nAddrs] != NIL(char *);  nAddrs++)
 	    continue;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
index 18f0d5a..b548a71 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
@@ -25,8 +25,9 @@ ml_val_t _util_NetDB_mknetent (ml_state_t *msp, struct netent *nentry)
       /* build the return result */
 	ml_val_t	name, aliases, af, net, res;
 
-	name = ML_CString(msp, nentry->n_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList(msp, nentry->n_aliases);
+	name = ML_CString(msp, nentry->n_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, nentry->n_addrtype);
 	WORD_ALLOC(msp, net, (Word_t)(nentry->n_net));
 	REC_ALLOC4 (msp, res, name, aliases, af, net);
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
index 1a659e5..4a0301d 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
@@ -26,8 +26,9 @@ ml_val_t _util_NetDB_mkservent (ml_state_t *msp, struct servent *sentry)
       /* build the return result */
 	ml_val_t	name, aliases, port, proto, res;
 
-	name = ML_CString(msp, sentry->s_name);
+      /* building the list may collect, so it comes first */
 	aliases = ML_CStringList(msp, sentry->s_aliases);
+	name = ML_CString(msp, sentry->s_name);
 	port = INT_CtoML(ntohs(sentry->s_port));
 	proto = ML_CString(msp, sentry->s_proto);
 	REC_ALLOC4 (msp, res, name, aliases, port, proto);
-- 
2.43.0


From 8805ae3ee996ffd29beaa5b3bc98e36e8bbb9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 18/33] fix: ML_CStringList and ML_SysConstList count all the
 space they need

---
 base/runtime/gc/ml-objects.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..54c99e8 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -85,7 +85,7 @@ ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
         continue;
 
     /* Make sure we have enough space to allocate the list */
-    nbytes = i * (3 * WORD_SZB);
+    nbytes = i * ((3 + 3) * WORD_SZB); /* cons cell and string header */
     for (j = 0;  j < i;  j++) {
         size_t len = strlen(strs[j]);
         Word_t nwords = BYTES_TO_WORDS(len + 1);
@@ -508,7 +508,7 @@ ml_val_t ML_SysConstList (ml_state_t *msp, sysconst_tbl_t *tbl)
       /* required space for string header+data (4 words + string bytes), pair (3 words),
        * cons (3 words).
        */
-        reqSpace = (4 + 3 + 3) * WORD_SZB + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1);
+        reqSpace = (4 + 3 + 3 + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1)) * WORD_SZB;
         if (reqSpace >= availSpace) {
             InvokeGCWithRoots (msp, 0, (ml_val_t *)&list, NIL(ml_val_t *));
             availSpace = ((size_t)msp->ml_limitPtr - (size_t)msp->ml_allocPtr);
-- 
2.43.0


From aba7e1c4e52e0b7c91460e404257a757e9b2dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:42 +0000
Subject: [PATCH 19/33] fix: waitpid does not examine a status that was not
 reported

---
 base/runtime/c-libs/posix-process/waitpid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..0a82d76 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -21,7 +21,7 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
     ml_val_t	ml_options = REC_SEL(arg, 1);
     int		options = SYSWORD_MLtoC(ml_options);
     int		pid;
-    int		status, how, val;
+    int		status = 0, how, val; /* no status is reported when pid is 0 */
     ml_val_t	r;
 
     pid = waitpid(REC_SELINT(arg, 0), &status, options);
-- 
2.43.0


From f5774e1b1919abe3e039ff78554b6d5da7c4292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:17 +0000
Subject: [PATCH 20/33] fix: OS.IO.poll with select: one result per ready item,
 descriptors in range

---
 base/runtime/c-libs/posix-os/poll.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..65c99b9 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -142,15 +142,19 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 {
     fd_set	rset, wset, eset;
     fd_set	*rfds, *wfds, *efds;
-    int		maxFD, sts, fd, flag;
+    int		maxFD, nItems, sts, fd, flag;
     ml_val_t	l, item;
 
     rfds = wfds = efds = NIL(fd_set *);
     maxFD = 0;
+    nItems = 0;
     for (l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
+	if ((fd < 0) || (fd >= FD_SETSIZE))
+	    return RAISE_ERROR(msp, "file descriptor out of range");
+	nItems++;
 	if ((flag & RD_BIT) != 0) {
 	    if (rfds == NIL(fd_set *)) {
 		rfds = &rset;
@@ -182,7 +186,7 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
+	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
 	int		i, resFlag;
 
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
@@ -202,9 +206,9 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    }
 	}
 
-	ASSERT(i == sts);
+	ASSERT(i <= nItems);
 
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
+	for (i--, l = LIST_nil;  i >= 0;  i--) {
 	    item = resVec[i];
 	    LIST_cons (msp, l, item, l);
 	}
-- 
2.43.0


From 1d113aaae9ad4ff86f96f30c4160f9b2c60d7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:02 +0000
Subject: [PATCH 21/33] fix: getgroups leaves room for its result list

A process with many supplementary groups overran the allocation space.
---
 base/runtime/c-libs/posix-procenv/getgroups.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..9c1e3b1 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -9,6 +9,7 @@
 #include <limits.h>
 #include "ml-base.h"
 #include "ml-values.h"
+#include "gc.h"
 #include "ml-objects.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
@@ -35,6 +36,10 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 
     p = LIST_nil;
     while (ngrps-- > 0) {
+      /* the set of groups may not fit in the space that is guaranteed */
+	if (NeedGC (msp, 5*WORD_SZB)) {
+	    InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+	}
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From e542b5c5417ecc73bed1df69f410dd42956b50bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:02 +0000
Subject: [PATCH 22/33] fix: OS.IO.poll leaves room for its result list

A poll with many ready items overran the allocation space.
---
 base/runtime/c-libs/posix-os/poll.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index 65c99b9..16df9d0 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -26,6 +26,7 @@
 #include "ml-base.h"
 #include "ml-c.h"
 #include "ml-values.h"
+#include "gc.h"
 #include "ml-objects.h"
 #include "cfun-proto-list.h"
 
@@ -186,7 +187,7 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
+	int		*resVec = NEW_VEC(int, 2*nItems); /* (fd, flags) pairs */
 	int		i, resFlag;
 
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
@@ -201,15 +202,20 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))
 		resFlag |= ERR_BIT;
 	    if (resFlag != 0) {
-		REC_ALLOC2 (msp, item, INT_CtoML(fd), INT_CtoML(resFlag));
-		resVec[i++] = item;
+		resVec[2*i] = fd;
+		resVec[2*i+1] = resFlag;
+		i++;
 	    }
 	}
 
 	ASSERT(i <= nItems);
 
 	for (i--, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	  /* the result may not fit in the space that is guaranteed */
+	    if (NeedGC (msp, 6*WORD_SZB)) {
+		InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
+	    }
+	    REC_ALLOC2 (msp, item, INT_CtoML(resVec[2*i]), INT_CtoML(resVec[2*i+1]));
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0


From b1a2d81b5a11f1ffcefe811153fe1d32484a7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:40 +0000
Subject: [PATCH 23/33] fix: pathconf and fpathconf do not truncate the value
 to an int

---
 base/runtime/c-libs/posix-filesys/pathconf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-filesys/pathconf.c b/base/runtime/c-libs/posix-filesys/pathconf.c
index 066bac1..33b24f1 100644
--- a/base/runtime/c-libs/posix-filesys/pathconf.c
+++ b/base/runtime/c-libs/posix-filesys/pathconf.c
@@ -38,11 +38,11 @@ static name_val_t values[] = {
 
 #define NUMELMS ((sizeof values)/(sizeof (name_val_t)))
 
-/* mkValue : int -> SysWord.word option
+/* mkValue : long -> SysWord.word option
  *
  * Convert return value from (f)pathconf to ML value.
  */
-STATIC_INLINE ml_val_t mkValue (ml_state_t *msp, int val)
+STATIC_INLINE ml_val_t mkValue (ml_state_t *msp, long val)
 {
     ml_val_t    p, obj;
 
@@ -68,7 +68,7 @@ STATIC_INLINE ml_val_t mkValue (ml_state_t *msp, int val)
  */
 ml_val_t _ml_P_FileSys_pathconf (ml_state_t *msp, ml_val_t arg)
 {
-    int		val;
+    long	val;
     ml_val_t	mlPathname = REC_SEL(arg, 0);
     ml_val_t	mlAttr = REC_SEL(arg, 1);
     char	*pathname = STR_MLtoC(mlPathname);
@@ -97,7 +97,7 @@ ml_val_t _ml_P_FileSys_pathconf (ml_state_t *msp, ml_val_t arg)
  */
 ml_val_t _ml_P_FileSys_fpathconf (ml_state_t *msp, ml_val_t arg)
 {
-    int		val;
+    long	val;
     int         fd = REC_SELINT(arg, 0);
     ml_val_t	mlAttr = REC_SEL(arg, 1);
     name_val_t  *attr;
-- 
2.43.0


From a98680f1305002249ec33ddf66ebb7a1f0c4dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:30 +0000
Subject: [PATCH 24/33] fix: date tuples get a valid descriptor

The arguments of MAKE_DESC were swapped, so the 9-tuple had a descriptor
of length 0 with a tag that does not exist.
---
 base/runtime/c-libs/smlnj-date/unix-date.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
-- 
2.43.0


From b40b6be2b3b6833d3fd9e283d257896666f4da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:30 +0000
Subject: [PATCH 25/33] fix: localtime returns the exception it raises

---
 base/runtime/c-libs/smlnj-date/localtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-date/localtime.c b/base/runtime/c-libs/smlnj-date/localtime.c
index cbf0e42..0f84991 100644
--- a/base/runtime/c-libs/smlnj-date/localtime.c
+++ b/base/runtime/c-libs/smlnj-date/localtime.c
@@ -25,7 +25,7 @@ ml_val_t _ml_Date_localtime (ml_state_t *msp, ml_val_t arg)
     struct tm	tmbuf;
 
     if (localtime_r (&t, &tmbuf) == NULL) {
-	RAISE_SYSERR(msp,0);
+	return RAISE_SYSERR(msp,0);
     }
     else {
 	return _ml_alloc_tm (msp, &tmbuf);
-- 
2.43.0


From d40d543eb9ef95e2d47aba08555a69534d1d1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:30 +0000
Subject: [PATCH 26/33] fix: ML_AllocNanoseconds does not truncate the seconds
 to an int

---
 base/runtime/include/ml-objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-objects.h b/base/runtime/include/ml-objects.h
index 8babe6f..231251b 100644
--- a/base/runtime/include/ml-objects.h
+++ b/base/runtime/include/ml-objects.h
@@ -266,7 +266,7 @@ STATIC_INLINE void ML_RecordUpdate (ml_state_t *msp, ml_val_t *addr)
 /* allocate a 64-bit integer number of nanoseconds, given seconds and
  * microseconds.
  */
-STATIC_INLINE ml_val_t ML_AllocNanoseconds (ml_state_t *msp, int sec, int usec)
+STATIC_INLINE ml_val_t ML_AllocNanoseconds (ml_state_t *msp, Int64_t sec, int usec)
 {
     Unsigned64_t t = (NS_PER_SEC * (Unsigned64_t)sec) + (1000 * (Unsigned64_t)usec);
     return ML_AllocWord64(msp, t);
-- 
2.43.0


From c871b4e60a249eb9024101e2b5b642c6fb565637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 27/33] fix: ML_AllocArrayData initializes arrays of 2^31 and
 more elements

---
 base/runtime/gc/ml-objects.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 54c99e8..24bfb35 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -332,7 +332,7 @@ ml_val_t ML_AllocArrayData (ml_state_t *msp, Word_t len, ml_val_t initVal)
 {
     ml_val_t    res, *p;
     ml_val_t    desc = MAKE_DESC(len, DTAG_arr_data);
-    int         i;
+    Word_t      i;
     Word_t      szb;
 
     if (len > SMALL_OBJ_SZW) {
-- 
2.43.0


From 34fbba205bb472c430772d952a974cb7c85a608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 28/33] fix: large arrays and vectors leave room in their arena
 for the next collection

---
 base/runtime/gc/ml-objects.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 24bfb35..cba5249 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -344,8 +344,11 @@ ml_val_t ML_AllocArrayData (ml_state_t *msp, Word_t len, ml_val_t initVal)
 #ifdef MP_SUPPORT
           checkGC:;     /* the MP version jumps to here to recheck for GC */
 #endif
+          /* a minor GC may itself copy allocSzB bytes into the arena, which must then
+           * still have room for the array and for the next minor GC.
+           */
             if (! isACTIVE(ap)
-            || (AVAIL_SPACE(ap) <= szb+msp->ml_heap->allocSzB))
+            || (AVAIL_SPACE(ap) <= szb+(gcLevel == 0 ? 2 : 1)*msp->ml_heap->allocSzB))
                 gcLevel = 1;
             if (gcLevel >= 0) {
               /* we need to do a GC (and preserve initVal) */
@@ -422,8 +425,11 @@ ml_val_t ML_AllocVector (ml_state_t *msp, Word_t len, ml_val_t initVal)
 
         szb = WORD_SZB*(len + 1);
         BEGIN_CRITICAL_SECT(MP_GCGenLock)
+          /* a minor GC may itself copy allocSzB bytes into the arena, which must then
+           * still have room for the vector and for the next minor GC.
+           */
             if (! isACTIVE(ap)
-            || (AVAIL_SPACE(ap) <= szb+msp->ml_heap->allocSzB))
+            || (AVAIL_SPACE(ap) <= szb+2*msp->ml_heap->allocSzB))
                 gcLevel = 1;
 #ifdef MP_SUPPORT
           checkGC:;     /* the MP version jumps to here to redo the GC */
-- 
2.43.0


From 834a530aa16b83f47c82a5617498248b7d83f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:58 +0000
Subject: [PATCH 29/33] fix: ML_ShrinkRaw shrinks objects of 2^31 and more
 words

---
 base/runtime/gc/ml-objects.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index cba5249..d87009c 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -181,7 +181,7 @@ ml_val_t ML_AllocRaw (ml_state_t *msp, Word_t nwords)
  */
 void ML_ShrinkRaw (ml_state_t *msp, ml_val_t v, Word_t nWords)
 {
-    int         oldNWords = OBJ_LEN(v);
+    Word_t      oldNWords = OBJ_LEN(v);
 
     if (nWords == oldNWords)
         return;
-- 
2.43.0


From 8c702280e45f716393a3762185dacfa54eb5071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 30/33] fix: ML_CStringList makes room for long strings before
 it builds the list

---
 base/runtime/gc/ml-objects.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index d87009c..324b0b2 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -79,21 +79,36 @@ ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
     int         i, j;
     ml_val_t    p, s;
-    Word_t      nbytes;
+    Word_t      nbytes, bigSzB;
+    arena_t     *ap = msp->ml_heap->gen[0]->arena[STRING_INDX];
+    bool_t      needGC;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
     /* Make sure we have enough space to allocate the list */
     nbytes = i * ((3 + 3) * WORD_SZB); /* cons cell and string header */
+    bigSzB = 0; /* data of the strings that are allocated in the first generation */
     for (j = 0;  j < i;  j++) {
         size_t len = strlen(strs[j]);
         Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
+        if (len > 0) {
+          /* +1 for the descriptor word */
+            if (nwords <= SMALL_OBJ_SZW)
+                nbytes += WORD_SZB * (nwords + 1);
+            else
+                bigSzB += WORD_SZB * (nwords + 1);
         }
     }
-    if (NeedGC (msp, nbytes)) {
+  /* no GC may happen below, where we hold pointers to the list */
+    needGC = NeedGC (msp, nbytes);
+    if ((bigSzB > 0)
+    && (needGC || (! isACTIVE(ap)) || (AVAIL_SPACE(ap) <= bigSzB+msp->ml_heap->allocSzB))) {
+        ap->reqSizeB += bigSzB + WORD_SZB;
+        InvokeGC (msp, 1);
+        ap->reqSizeB = 0;
+    }
+    else if (needGC) {
         InvokeGC (msp, 0);
     }
 
-- 
2.43.0


From 88cc08f845c577736dbf6d0534ab059d8f859a81 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 10:01:24 +0000
Subject: [PATCH 31/33] fix: reporting an uncaught exception does not overflow
 its buffer

UncaughtExn printed the exception's string argument and its source location
with sprintf into a buffer of 1024 bytes; an uncaught Fail (or any exception
that carries a long string) overran the stack.
---
 base/runtime/kernel/run-ml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index d8488f2..a6cd787 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -316,7 +316,7 @@ PVT void UncaughtExn (ml_val_t e)
     else {
         ml_val_t        desc = OBJ_DESC(val);
         if (desc == DESC_string)
-            sprintf (buf, "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
+            snprintf (buf, sizeof(buf)/2, "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
         else
             sprintf (buf, "<unknown>");
     }
@@ -329,7 +329,7 @@ PVT void UncaughtExn (ml_val_t e)
             next = LIST_tl(traceBack);
         } while (next != LIST_nil);
         val = LIST_hd(traceBack);
-        sprintf (buf+strlen(buf), " raised at %.*s",
+        snprintf (buf+strlen(buf), sizeof(buf)-strlen(buf), " raised at %.*s",
                  (int) GET_SEQ_LEN(val), STR_MLtoC(val));
     }
 
-- 
2.43.0


From 1a8ff3d1fd93093330d19e36481e308eb220d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:12 +0000
Subject: [PATCH 32/33] fix: COPYLOOP copies objects of 2^31 and more words
 whole

---
 base/runtime/gc/copy-loop.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/gc/copy-loop.h b/base/runtime/gc/copy-loop.h
index 5dc9e4e..f9ff02c 100644
--- a/base/runtime/gc/copy-loop.h
+++ b/base/runtime/gc/copy-loop.h
@@ -13,8 +13,8 @@
 #define COPYLOOP(SRC,DST,LEN)	{			\
 	Word_t	*__src = (Word_t *)(SRC);		\
 	Word_t	*__dst = (Word_t *)(DST);		\
-	int	__len = (LEN);				\
-	int	__m;					\
+	Int_t	__len = (LEN);			\
+	Int_t	__m;					\
 	switch (__len & 0x3) {				\
 	  case 3: *__dst++ = *__src++;			\
 	  case 2: *__dst++ = *__src++;			\
@@ -33,8 +33,8 @@
 #define COPYLOOP(SRC,DST,LEN)	{			\
 	Word_t	*__src = (Word_t *)(SRC);		\
 	Word_t	*__dst = (Word_t *)(DST);		\
-	int	__len = (LEN);				\
-	int	__m;					\
+	Int_t	__len = (LEN);			\
+	Int_t	__m;					\
 	switch (__len & 0x3) {				\
 	  case 3: *__dst++ = *__src++;			\
 	  case 2: *__dst++ = *__src++;			\
-- 
2.43.0


From 3de907dcf628a715fdad702fa5b1e0ccac249e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:31 +0000
Subject: [PATCH 33/33] fix: MajorGC counts the bytes, not the words, that it
 copies to the generation above

---
 base/runtime/gc/major-gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/gc/major-gc.c b/base/runtime/gc/major-gc.c
index e8abca0..bd4ada8 100644
--- a/base/runtime/gc/major-gc.c
+++ b/base/runtime/gc/major-gc.c
@@ -354,7 +354,7 @@ void MajorGC (ml_state_t *msp, ml_val_t **roots, int level)
 	gen_t *gen = heap->gen[maxSweptGen-1];
 	for (j = 0;  j < NUM_ARENAS;  j++) {
 	    CNTR_INCR(&(heap->numCopied[maxSweptGen-1][j]),
-		gen->arena[j]->nextw - tospTop[j]);
+		(Addr_t)(gen->arena[j]->nextw) - (Addr_t)(tospTop[j]));
 	}
     }
     for (i = 0;  i < maxCollectedGen;  i++) {
-- 
2.43.0

