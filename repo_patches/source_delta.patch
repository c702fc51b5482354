From 51b0ead96c7d1196b6d83825a504afa62f390694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 001/101] fix: WFBuffer keeps explicitly locked and recently
 accessed positions in memory

Accesses rolling over cancelled explicit locks and the lock of positions
accessed twice, and AutoLock(0) locked every accessed position forever.
---
 src/qdlib/WFBuffer.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index c7389d6..049e03e 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -106,11 +106,7 @@ namespace QDLIB {
          if ( _LastAccess[i] == mempos) return true;
       }
 
-      for (size_t i=0; i < _buf.size(); i++){
-         if (_buf[i].Locked) return true;
-      }
-
-      return false;
+      return _buf[mempos].Locked;
    }
    
    /**
@@ -119,7 +115,7 @@ namespace QDLIB {
    void WFBuffer::_MoveToDisk()
    {
       for (size_t i = _buf.size()-1; i > 0; i--){ /* walk through membuf - backwards */
-         if (_buf[i].Psi != NULL && !_buf[i].Locked){ /* This is an Element in memory */
+         if (_buf[i].Psi != NULL && !_IsLocked(i)){ /* This is an Element in memory */
 
             // Dump to file
             ofstream file;
@@ -259,13 +255,10 @@ namespace QDLIB {
       if (pos >= _buf.size())
          throw (EIncompatible("Tried to read invalid WFBuffer element"));
 
-      _buf[pos].Locked = true;
-      
-      if (_LastLocks > 0 ) _LastAccess.push_front(pos);
-      if (_LastAccess.size() > _LastLocks) {
-         _buf[_LastAccess.back()].Locked = false;
+      /* Remember the last accesses. The current one is kept in any case */
+      _LastAccess.push_front(pos);
+      while (_LastAccess.size() > _LastLocks && _LastAccess.size() > 1)
          _LastAccess.pop_back();
-      }
 
       if (_buf[pos].Psi == NULL){
          if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-- 
2.43.0


From f390cb2c04946f8eedf2e964a930df023632e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 002/101] fix: WFBuffer can be resized to zero and drops all
 locks when shrunk

---
 src/qdlib/WFBuffer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index 049e03e..dd3677c 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -160,7 +160,9 @@ namespace QDLIB {
       size_t oldsize = _buf.size();
 
       if (oldsize > size) { /* Reduce size */
-         for (size_t i=oldsize-1; i >= size; i--){
+         while (_buf.size() > size){
+            size_t i = _buf.size() - 1;
+
             if (_buf[i].Psi != NULL){ /* Remove wf from memory */
                DELETE_WF(_buf[i].Psi);
             }
@@ -174,6 +176,9 @@ namespace QDLIB {
          }
 
          /* Clear all locks */
+         for (size_t i=0; i < _buf.size(); i++)
+            _buf[i].Locked = false;
+
          _LastAccess.clear();
          _locked = 0;
       } else if (oldsize < size) { /* Enlarge */
-- 
2.43.0


From cd965fb526a8d752158c1d8ec1d04bd2cf8e3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 003/101] fix: WFBuffer::Init provides a valid entry also after
 ResizeBuffer

---
 src/qdlib/WFBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index dd3677c..65f5bfb 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -211,7 +211,8 @@ namespace QDLIB {
 
             if (Psi->size() != wf->size())
                throw (EIncompatible("WFBuffer: Incompatible types"));
-         }
+         } else
+            _buf[0].Psi = Psi->NewInstance();
       }
 
 
-- 
2.43.0


From f6ef2442f7b5864a0c84900a3bb7f004c924a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 004/101] fix: WFBuffer writes the states of multistate wave
 functions to disk

Only the number of states was written, the content was lost.
---
 src/qdlib/WFBuffer.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index 65f5bfb..f9920ab 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -5,6 +5,7 @@
 #include "WFBuffer.h"
 #include "tools/GlobalParams.h"
 #include "qdlib/FileWF.h"
+#include "qdlib/WFMultistate.h"
 
 #include <typeinfo>
 #include <unistd.h>
@@ -13,6 +14,32 @@
 
 namespace QDLIB {
 
+   /**
+    * Write the content of a wave function, including the states of a multistate wave function.
+    */
+   static void SerializeContent(WaveFunction* Psi, ostream& os)
+   {
+      Psi->Serialize(os);
+
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++)
+            SerializeContent(wfm->State(i), os);
+   }
+
+   /**
+    * Counterpart of SerializeContent.
+    */
+   static void DeSerializeContent(WaveFunction* Psi, istream& is)
+   {
+      Psi->DeSerialize(is);
+
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++)
+            DeSerializeContent(wfm->State(i), is);
+   }
+
    WFBuffer::WFBuffer() : _LastLocks(WFBUFFER_LOCK_LAST),
                        _locked(0), _ondisk(0), _MaxBuf(DEFAULT_BUFFER_SIZE)
    {
@@ -120,7 +147,7 @@ namespace QDLIB {
             // Dump to file
             ofstream file;
             file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file); // TODO: Error checking!!
+            SerializeContent(_buf[i].Psi, file); // TODO: Error checking!!
             file.close();
 
             // Book keeping
@@ -146,7 +173,7 @@ namespace QDLIB {
 
       ifstream file;
       file.open(_GetFileName(pos).c_str());
-      _buf[pos].Psi->DeSerialize(file); // TODO: Error checking!!
+      DeSerializeContent(_buf[pos].Psi, file); // TODO: Error checking!!
       file.close();
       
       _ondisk--;
-- 
2.43.0


From 8b3539f0c212021be5ba6cba0d04aea779e7beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 005/101] fix: WFMultistate reports the storage of all its
 states

---
 src/qdlib/WFMultistate.cpp | 10 ++++++++++
 src/qdlib/WFMultistate.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..b7d98ab 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -259,6 +259,16 @@ namespace QDLIB
 //      IsKspace(false); /* Set our self also to x-space representation */
    }
 
+   size_t WFMultistate::size_bytes()
+   {
+      size_t size = 0;
+
+      for(lint i=0; i < _nstates; i++)
+         size += _states[i]->size_bytes();
+
+      return size;
+   }
+
    void WFMultistate::Retire()
    {
       for(lint i=0; i < _nstates; i++)
diff --git a/src/qdlib/WFMultistate.h b/src/qdlib/WFMultistate.h
index c3f11f2..08722dd 100644
--- a/src/qdlib/WFMultistate.h
+++ b/src/qdlib/WFMultistate.h
@@ -57,6 +57,8 @@ namespace QDLIB
 
          virtual void Restore(WaveFunction* Psi);
 
+         virtual size_t size_bytes();
+
          virtual void Retire();
 
          virtual void Reaquire();
-- 
2.43.0


From 358d7f1a9f0f7d5746f77794da0d5d30ac520ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 006/101] fix: Memory enforces its limit on what is really
 allocated

The available size wrapped around when the limit was below the used size,
rounding to blocks was not considered, and recycled slots were refused.
---
 src/tools/Memory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 6a5f8e2..140a703 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -85,7 +85,7 @@ namespace QDLIB
      */
     size_t Memory::CurrentSizeAvail() const
     {
-       return _MaxMem - _used;
+       return _MaxMem > _used ? _MaxMem - _used : 0;
     }
 
     /**
@@ -204,10 +204,6 @@ namespace QDLIB
      */
     void Memory::Align(void **p, size_t size)
     {
-       /* Check if we have enough free space */
-       if ( CurrentSizeAvail() < size)
-          throw(EMemory());
-
        // calc amounts of blocks needed
        size_t nb = size / QDMEM_BLOCK_SIZE;
        if (size % QDMEM_BLOCK_SIZE > 0) nb++;
@@ -217,6 +213,10 @@ namespace QDLIB
        //cout << nb << " "<< slot_map.size() << " " << free_map.size() << " " << CurrentSizeAvail() <<endl;
 
        if (fit == free_map.end()){
+          /* Check if we have enough free space */
+          if ( CurrentSizeAvail() / QDMEM_BLOCK_SIZE < nb )
+             throw(EMemory());
+
           // Create a new entry
           int ret = ::posix_memalign( p, QDLIB_DATA_ALIGNMENT, nb * QDMEM_BLOCK_SIZE);
           if (ret != 0) throw(EMemory());
-- 
2.43.0


From d497231c6f6b0af0c99b9494a898e833eefc5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 007/101] fix: memory sizes without a number are rejected

---
 src/tools/Memory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 140a703..236e7b3 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -108,9 +108,15 @@ namespace QDLIB
        size_t factor;
        string s = value;
 
+       if (s.length() == 0)
+          throw( EParamProblem ("Wrong format for memory type number") );
+
        if (s[s.length()-1] == 'B')
           s.erase(s.length()-1, 1); /* Remove suffix B */
 
+       if (s.length() == 0)
+          throw( EParamProblem ("Wrong format for memory type number") );
+
        /* Search for unit suffix K, M or G and convert to factor */
        char suffix = s[s.length()-1];
        switch(suffix){
@@ -146,6 +152,9 @@ namespace QDLIB
           s.erase(s.length()-1, 1); /* Remove suffix */
 
 
+       if (s.length() == 0)
+          throw( EParamProblem ("Wrong format for memory type number") );
+
        /* Check validity */
        size_t found=s.find_first_not_of("0123456789");
        if (found!=string::npos)
-- 
2.43.0


From 7094267a98177f652acf201a72159f0a77916a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 008/101] fix: XML input is read with its actual length

---
 src/qdng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index 48b03be..1951b01 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -129,7 +129,7 @@ void CheckInput(const string &name, string &xml)
 
          size += infile.gcount();
       }
-      xml = buf;
+      xml.assign(buf, size);
       free(buf);
    }
 
-- 
2.43.0


From 038c8365dc97a30da4dc503975ca6002f8e48f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 009/101] fix: propagators don't release operators they were
 only given

---
 src/qdlib/OPropagator.h | 3 ++-
 src/qdlib/OSPO.cpp      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index f912b84..b9a119b 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -38,7 +38,8 @@ namespace QDLIB {
 	 {
 	 }
       
-	 ~OPropagator() { DELETE_OP(H); }
+	 /* The Hamiltonian isn't ours: it may be in use elsewhere (see also OList). */
+	 ~OPropagator() {}
 	    
 	 
 	 virtual void Clock(QDClock *cl)
diff --git a/src/qdlib/OSPO.cpp b/src/qdlib/OSPO.cpp
index 3d779d0..7d281ea 100644
--- a/src/qdlib/OSPO.cpp
+++ b/src/qdlib/OSPO.cpp
@@ -12,7 +12,7 @@ namespace QDLIB {
 
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OSPO)
    
-   OSPO::OSPO() : OPropagator(), _name("OSPO"),
+   OSPO::OSPO() : OPropagator(), _name("OSPO"), _H(NULL),
                   _Tkin(NULL), _Tkin_kspace(NULL), _Vcoup(NULL),
                         _expT(NULL), _expV(NULL), _V1(NULL), _expVcoup(NULL), _expVcoupI(NULL),_buf(NULL), _buf2(NULL),
                         _coupling(false), _coupdiag(false),_cT(0,0), _cV(0,0), _last_time(0)
-- 
2.43.0


From 6cfc5d080a19c30054c92394849ceee31e9bc56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 010/101] fix: operators are registered with the collector
 under their own address

---
 src/qdlib/OGridSum.cpp         |  3 +--
 src/qdlib/OHermitianMatrix.cpp |  1 -
 src/qdlib/Operator.h           | 28 +++++++++++++++++++++++++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 622cef0..0a83266 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -18,8 +18,7 @@ namespace QDLIB {
    
    OGridSum::~OGridSum()
    {
-      for (int i=0; i < MAX_OPS; i++)
-	 if (_O[i] != NULL) DELETE_OP(_O[i]);
+      /* The elements aren't ours (see also OList). */
    }
 
    /**
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 5193b6b..e7d53b3 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -29,7 +29,6 @@ namespace QDLIB {
    {
       OHermitianMatrix *r =  new OHermitianMatrix();
       r->newsize(rows(), rows());
-      CollectorOp::Instance()->Register(r);
       return r;
    }
 
diff --git a/src/qdlib/Operator.h b/src/qdlib/Operator.h
index cbc89fd..32c1616 100644
--- a/src/qdlib/Operator.h
+++ b/src/qdlib/Operator.h
@@ -61,6 +61,19 @@ namespace QDLIB {
    {
 
       private:
+         /* Storage handed out by operator new, waiting for its constructor. */
+         struct NewBlock {
+            char* begin;
+            size_t size;
+            NewBlock() : begin(NULL), size(0) {}
+         };
+
+         static NewBlock& newBlock()
+         {
+            static thread_local NewBlock block;
+            return block;
+         }
+
          bool _recalc; /* Indicates if operator internal should be recalculted or not. */
          WaveFunction *_buf, *_buf1;
       protected:
@@ -104,6 +117,14 @@ namespace QDLIB {
          Operator() : _recalc(true), _buf(NULL), _buf1(NULL), _isTimedependent(false), clock(NULL),
                       _conj(false), _hermitian(true)
 	  {
+	     /* Register the operator under its own address, which can differ from the
+	      * address of the storage if Operator isn't the first base class. */
+	     NewBlock& blk = newBlock();
+	     char* self = reinterpret_cast<char*>(this);
+	     if (self >= blk.begin && self < blk.begin + blk.size){
+	        blk = NewBlock();
+	        Collector<Operator>::Instance()->Register(this);
+	     }
      }
 	  
 	 /**
@@ -116,12 +137,13 @@ namespace QDLIB {
 
 	 /**
 	  * Overloaded new Operator.
-	  * Registers the object with the collector.
+	  * The constructor registers the object with the collector.
 	  */
 	 void* operator new(size_t size)
 	 {
-	    Operator* p = (Operator*) malloc(size);
-	    Collector<Operator>::Instance()->Register(p);
+	    void* p = malloc(size);
+	    newBlock().begin = static_cast<char*>(p);
+	    newBlock().size = size;
 	    return(p);
 	 }
 
-- 
2.43.0


From 94170b71e9715341448261f08d39c08914743261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 011/101] fix: QDClock::Sync refused whole steps that floating
 point division does not hit exactly

---
 src/tools/QDClock.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/QDClock.cpp b/src/tools/QDClock.cpp
index 9c6aa42..716b289 100644
--- a/src/tools/QDClock.cpp
+++ b/src/tools/QDClock.cpp
@@ -121,9 +121,10 @@ namespace QDLIB
    {
       double step = master.Time() / _dt;
 
-      if ( (step - round(step)) != 0)
+      /* step * dt / dt is not always an exact integer in floating point numbers */
+      if ( !(fabs(step - round(step)) <= 1e-9 * (1 + fabs(step))) )
          throw (EParamProblem("Clock sync error: non integer step"));
 
-      _step = int(step);
+      _step = int(round(step));
    }
 }
-- 
2.43.0


From d1721266062b862cfb4071d21677f5b696fbca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 012/101] fix: ParamContainer::Parse cut the type of an entry
 at the wrong length

---
 src/tools/ParamContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 18e9b2a..e45f83d 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -762,7 +762,7 @@ namespace QDLIB {
             if (tpos1 != key.npos) { /* extract typedef */
                string stype;
                if (tpos2 != key.npos)
-                  stype = key.substr(tpos1+1, tpos1);
+                  stype = key.substr(tpos1+1, tpos2-tpos1-1);
                else
                   stype = key.substr(tpos1+1);
 
-- 
2.43.0


From 4e137949ca7aa0abf5058a621dc18099c70eee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 013/101] fix: ParamContainer::Parse took brackets in comment
 lines for types

---
 src/tools/ParamContainer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index e45f83d..8353970 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -754,6 +754,8 @@ namespace QDLIB {
             trim(key); // remove whitespaces
             trim(val);
 
+            if (key.find("#") == 0) continue; // Lines begining with "#" are treated as comment
+
             /* look for type definition */
             ParamContainer::datatype type = ParamContainer::t_undef;
             size_t tpos1 = key.find("[");
@@ -772,10 +774,8 @@ namespace QDLIB {
                trim(key);
             }
 
-            /*  At least the key has to contain something
-             * Lines begining with "#" are treated as comment
-             */
-            if (!key.empty() && key.find("#") != 0) {
+            /*  At least the key has to contain something */
+            if (!key.empty()) {
                SetValue(key, val, type);
             }
          }
-- 
2.43.0


From 7c84a37250d07e82cddabdd55551cab8a1fcb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 014/101] fix: ParamContainer::Parse never returned after a
 line longer than its buffer

---
 src/tools/ParamContainer.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 8353970..350895e 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -731,16 +731,10 @@ namespace QDLIB {
    void ParamContainer::Parse(istream &stream, const char* eof)
    {
       string s;
-      char line[MAX_LINE_LENGTH];
       size_t pos;
 
       clear();
-      while (!stream.eof()) { // Reading loop
-         stream.getline(line, MAX_LINE_LENGTH);
-         //if (file.fail()) return false;
-
-         s.assign(line);
-
+      while (getline(stream, s)) { // Reading loop
          if (eof != NULL)
             if (s == eof) break;
 
-- 
2.43.0


From 34c2569ae089fcc1c614aa1c50c5081f0d9f66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 015/101] fix: trim() left strings alone that consist of
 several blanks only

---
 src/tools/helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/helpers.cpp b/src/tools/helpers.cpp
index 64f69f0..185fc13 100644
--- a/src/tools/helpers.cpp
+++ b/src/tools/helpers.cpp
@@ -13,9 +13,11 @@ namespace QDLIB {
       pos = s.find_first_of(" \t");          // trim from left      
       if (pos == 0){
 	 pos = s.find_first_not_of(" \t");
-	 if (pos != s.npos) {
-	    s.erase(0,pos);
+	 if (pos == s.npos) {                  // only whitespaces
+	    s.clear();
+	    return s;
 	 }
+	 s.erase(0,pos);
       }
 	 
       pos = s.find_last_of(" \t");          // trim from right
-- 
2.43.0


From d6ea1c520bc727144ba86dc916391d8b8ea8001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 016/101] fix: ParamContainer kept the types of values replaced
 by += or Params()

---
 src/tools/ParamContainer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 350895e..b7c3b3e 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -94,6 +94,8 @@ namespace QDLIB {
    void ParamContainer::Params(const string_map params)
    {
          _param_map = params;
+         _type_map.clear();
+         _it = _param_map.begin();
    }
 
    /**
@@ -696,6 +698,7 @@ namespace QDLIB {
       for (string_map::iterator it = addpmap.begin(); it != addpmap.end(); it++)
       {
          _param_map[it->first] = it->second;
+         _type_map[it->first] = t_undef;
       }
 
       map<string, datatype> addtmap = params._type_map;
-- 
2.43.0


From 099a5a7d01ee46999909455ce476cb863b0b50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 017/101] fix: ParamContainer stored floating point numbers
 with six digits only

---
 src/tools/ParamContainer.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index b7c3b3e..e7af5eb 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -13,6 +13,23 @@
 
 namespace QDLIB {
 
+   /**
+    * Shortest text that reads back as the same number.
+    */
+   static string DoubleToString(double value)
+   {
+      char buf[40];
+
+      for (int digits=6; digits <= 17; digits++){
+         double back;
+
+         snprintf(buf, sizeof(buf), "%.*g", digits, value);
+         if (sscanf(buf, "%lf", &back) == 1 && back == value) break;
+      }
+
+      return string(buf);
+   }
+
    /**
     * Translate a enum into textual representation.
     */
@@ -585,10 +602,7 @@ namespace QDLIB {
     */
    void ParamContainer::SetValue(const string name, const double &value)
    {
-     stringstream ss;
-
-     ss << value;
-     ss >> _param_map[name];
+     _param_map[name] = DoubleToString(value);
 
      _type_map[name] = t_double;
    }
@@ -618,7 +632,7 @@ namespace QDLIB {
       stringstream cat;
 
       for (size_t i=0; i < n; i++){
-         cat << values[i];
+         cat << DoubleToString(values[i]);
          if (i != n-1) cat << ",";
       }
 
-- 
2.43.0


From d292616d98d6052774dae714ba1ca2b51adf1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 018/101] fix: a copied or cleared ParamContainer iterated over
 another container or over removed entries

---
 src/tools/ParamContainer.cpp | 10 ++++++++++
 src/tools/ParamContainer.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index e7af5eb..59a433a 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -95,6 +95,15 @@ namespace QDLIB {
 	 _it = _param_map.begin();
    }
 
+   /**
+    * Copy constructor. The position refers to the copy, not to its source.
+    */
+   ParamContainer::ParamContainer(const ParamContainer &params) :
+         _type_map(params._type_map), _param_map(params._param_map)
+   {
+      _it = _param_map.begin();
+   }
+
    /**
     * Return the actual parameter set.
     */
@@ -497,6 +506,7 @@ namespace QDLIB {
    {
       _param_map.clear();
       _type_map.clear();
+      _it = _param_map.begin();
    }
 
 
diff --git a/src/tools/ParamContainer.h b/src/tools/ParamContainer.h
index 54dbd19..415ae0d 100644
--- a/src/tools/ParamContainer.h
+++ b/src/tools/ParamContainer.h
@@ -49,6 +49,7 @@ typedef map<string,string> string_map;
 
 	 ParamContainer();
 	 ParamContainer(const string_map params);
+	 ParamContainer(const ParamContainer &params);
       
 	 void Params(const string_map params);
          string_map& Params();
-- 
2.43.0


From 8c301ebd57c45982dc25b62889e083a0b41ba95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 019/101] fix: keep the types when a ParamContainer is added to
 itself

---
 src/tools/ParamContainer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 59a433a..554ce77 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -718,6 +718,7 @@ namespace QDLIB {
    {
 
       string_map addpmap = params._param_map;
+      map<string, datatype> addtmap = params._type_map;
 
       for (string_map::iterator it = addpmap.begin(); it != addpmap.end(); it++)
       {
@@ -725,8 +726,6 @@ namespace QDLIB {
          _type_map[it->first] = t_undef;
       }
 
-      map<string, datatype> addtmap = params._type_map;
-
       for (map<string, datatype>::iterator it = addtmap.begin(); it != addtmap.end(); it++)
       {
          _type_map[it->first] = it->second;
-- 
2.43.0


From 728f41b5e32e002e8b00513be1584c6e68c0e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 020/101] fix: GetNonOption counted parsed options instead of
 arguments

---
 src/tools/Getopt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/Getopt.cpp b/src/tools/Getopt.cpp
index df1d0bc..5118580 100644
--- a/src/tools/Getopt.cpp
+++ b/src/tools/Getopt.cpp
@@ -275,7 +275,7 @@ namespace QDLIB {
    bool QDLIB::Getopt::GetNonOption(int number, char *value, int len)
    {
       if (((unsigned int) optind + number) < _argc ){
-	 strncpy(value, _argv[value_map.size() + 1 + number], len);
+	 strncpy(value, _argv[optind + number], len);
 	 return true;
       } else return false;
       
-- 
2.43.0


From f83478281ee5041e0e8956f0e183f630a1ed69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 021/101] fix: asking for the value of an option made it count
 as given

---
 src/tools/Getopt.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/Getopt.cpp b/src/tools/Getopt.cpp
index 5118580..352278a 100644
--- a/src/tools/Getopt.cpp
+++ b/src/tools/Getopt.cpp
@@ -182,7 +182,7 @@ namespace QDLIB {
       }
       
       for (map<char, string>::iterator it = help_map.begin(); it != help_map.end(); it++){
-	 if ( ! parameter_map[(*it).first].empty() && req_map[(*it).first] && value_map[(*it).first].empty() ){
+	 if ( ! parameter_map[(*it).first].empty() && req_map[(*it).first] && ( !GetOption((*it).first) || value_map[(*it).first].empty() ) ){
 	    cerr << "\t>> Parameter -" << (*it).first << " is missing!" << endl;
 	    ShowHelp();
 	    return false;
@@ -216,7 +216,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, char &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter) && !value_map[letter].empty())
 	 value = value_map[letter][0];
       else 
 	 value = default_map[letter][0];;
@@ -229,7 +229,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, int &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter) && !value_map[letter].empty())
 	 sscanf( value_map[letter].c_str(), "%d", &value);
       else 
 	 sscanf( default_map[letter].c_str(), "%d", &value);
@@ -242,7 +242,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, double &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter) && !value_map[letter].empty())
 	 sscanf( value_map[letter].c_str(), "%lf", &value);
       else
 	 sscanf( default_map[letter].c_str(), "%lf", &value);
@@ -255,7 +255,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, string &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter) && !value_map[letter].empty())
 	 value = value_map[letter];
       else
 	 value = default_map[letter];
-- 
2.43.0


From bba5127bc798dd9926cf4bbd559d9b444fcca1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 022/101] fix: switching the representation through the base
 class reaches the states

---
 src/qdlib/WaveFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/WaveFunction.h b/src/qdlib/WaveFunction.h
index 706af0b..517e8d5 100644
--- a/src/qdlib/WaveFunction.h
+++ b/src/qdlib/WaveFunction.h
@@ -115,7 +115,7 @@ namespace QDLIB {
           * 
           * This also switches the buffer space.
           */
-         void IsKspace(bool is)
+         virtual void IsKspace(bool is)
          {  
             if ( _spacebuffer == NULL) GetSpaceBuffer();
             if ( _spacebuffer->size() != size() || _spacebuffer->strides() != strides())
-- 
2.43.0


From 37e90ea519ffe96294e2b7ef1a98efd1539c6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 023/101] fix: multistate assignment relinks the states, scalar
 product checks them

---
 src/qdlib/WFMultistate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index b7d98ab..62adf2a 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -191,7 +191,9 @@ namespace QDLIB
       if (_nstates != psi->_nstates)
 	 throw( EIncompatible("Multistate WFs differ in number of states") ) ;
       
-      
+      /* The states follow the representation of the source, our strides have to as well */
+      IsKspace(psi->_IsKspace);
+
       for(lint i=0; i < psi->_nstates; i++){
 	 *(_states[i]) = psi->_states[i];
       }
@@ -208,6 +210,9 @@ namespace QDLIB
       
       if (psi == NULL)
          throw( EIncompatible("Not a Multistate wave function", Psi->Name()) ) ;
+
+      if (_nstates != psi->_nstates)
+         throw( EIncompatible("Multistate WFs differ in number of states") ) ;
       
       for(lint i=MPIrank(); i < _nstates; i+=MPIsize()){
          c += *(_states[i]) * psi->_states[i];
-- 
2.43.0


From f916f193528985df4698e86bcfcad1b6a5bbec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 024/101] fix: a new level wave function takes over the
 parameters

---
 src/qdlib/WFLevel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..dae518d 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -13,6 +13,7 @@ namespace QDLIB {
    WaveFunction* WFLevel::NewInstance()
    {
       WFLevel* p = new WFLevel(size());
+      p->_params = _params;
       return p;
    }
    
-- 
2.43.0


From 23847ae186defdde3c968c62c78e74c2bb48699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 025/101] fix: refuse operands of another shape in wave
 function arithmetic

---
 src/qdlib/WFGridCartesian.cpp | 10 +++++++++-
 src/qdlib/WFLevel.cpp         |  2 +-
 src/qdlib/WaveFunction.cpp    | 10 ++++++----
 src/qdlib/WaveFunction.h      | 16 ++++++++++++----
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index ddd6d37..6ca7e29 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -53,14 +53,22 @@ namespace QDLIB {
 
    WaveFunction * WFGridCartesian::operator =(WaveFunction * Psi)
    {
+      WFGridSystem* psi = dynamic_cast<WFGridSystem*> (Psi);
+
+      if (psi == NULL)
+         throw( EIncompatible("WFGridCartesian can't copy from", Psi->Name()) );
+
       /* WFGridSystem already knows what to copy */
-      *((WFGridSystem*) this) = dynamic_cast<WFGridSystem*> (Psi);
+      *((WFGridSystem*) this) = psi;
       
       return this;
    }
 
    dcomplex WFGridCartesian::operator *(WaveFunction *Psi)
    {
+      if (size() != Psi->size() || strides() != Psi->strides())
+         throw(EIncompatible("WFs differ in size"));
+
       dcomplex c(0,0);
       dcomplex cglob(0,0);
       
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index dae518d..238a329 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -74,7 +74,7 @@ namespace QDLIB {
    dcomplex WFLevel::operator*(WaveFunction *Psi)
    {
       
-      if (size() != Psi->size()) throw(EIncompatible("WFs differ in size"));
+      if (size() != Psi->size() || strides() != Psi->strides()) throw(EIncompatible("WFs differ in size"));
       
       /** \todo make mpi-save */
       int s;
diff --git a/src/qdlib/WaveFunction.cpp b/src/qdlib/WaveFunction.cpp
index 2e944de..8da3e16 100644
--- a/src/qdlib/WaveFunction.cpp
+++ b/src/qdlib/WaveFunction.cpp
@@ -10,10 +10,11 @@ namespace QDLIB {
    {
       WaveFunction *wf;
          
+      if (PsiB->size() != PsiA->size() || PsiB->strides() != PsiA->strides())
+         throw ( EParamProblem("WFs differ in size") );
+
       wf = PsiA->NewInstance();
                
-      if (PsiB->size() != PsiA->size()) throw ( EParamProblem("WFs differ in size") );
-               
       MultElementsCopy((cVec*) wf, (cVec*) PsiA, (cVec*) PsiB);
       return wf;
    }
@@ -22,10 +23,11 @@ namespace QDLIB {
    {
       WaveFunction *wf;
          
+      if (PsiB->size() != PsiA->size() || PsiB->strides() != PsiA->strides())
+         throw ( EParamProblem("WFs differ in size") );
+
       wf = PsiA->NewInstance();
                
-      if (PsiB->size() != PsiA->size()) throw ( EParamProblem("WFs differ in size") );
-               
        MultElementsConjugate((cVec*) wf, (cVec*) PsiA, (cVec*) PsiB, (double) 1.0);
       return wf;
    }
diff --git a/src/qdlib/WaveFunction.h b/src/qdlib/WaveFunction.h
index 517e8d5..b41f4f2 100644
--- a/src/qdlib/WaveFunction.h
+++ b/src/qdlib/WaveFunction.h
@@ -37,6 +37,13 @@ namespace QDLIB {
          bool _IsKspace;      /* To remember in which basis we are */
          cVec *_spacebuffer;   /* transformation buffer for different basis */
          ParamContainer _params;
+
+         /** Element wise operations need the same layout. */
+         void CheckShape(WaveFunction* Psi)
+         {
+            if (cVec::size() != Psi->size() || cVec::strides() != Psi->strides())
+               throw ( EParamProblem("WFs differ in size") );
+         }
       public:
          WaveFunction() : cVec() ,_IsKspace(false), _spacebuffer(NULL) {}
 
@@ -232,6 +239,7 @@ namespace QDLIB {
          {
             WaveFunction *wf;
       
+            CheckShape(Psi);
             wf = this->NewInstance();
             
             AddElementsEq((cVec*) wf, (cVec*) this, (cVec*) Psi);
@@ -246,7 +254,7 @@ namespace QDLIB {
          /** Sum */
          WaveFunction* operator+=(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            CheckShape(Psi);
             
             AddElements((cVec*) this, (cVec*) Psi);
             return this;
@@ -256,7 +264,7 @@ namespace QDLIB {
          /** Difference */
          WaveFunction* operator-=(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            CheckShape(Psi);
             
             AddElements((cVec*) this, (cVec*) Psi, -1);
             return this;
@@ -268,7 +276,7 @@ namespace QDLIB {
           */
          void DirectProduct(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            CheckShape(Psi);
             
             MultElements((cVec*) this, (cVec*) Psi);
             
@@ -279,7 +287,7 @@ namespace QDLIB {
           */
          void DirectProductConjugate(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            CheckShape(Psi);
             MultElementsConjugate((cVec*) this, (cVec*) Psi, (double) 1.0);
             
          }
-- 
2.43.0


From 09b99ff6f1708cfd86588671c331132f9a3385dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 026/101] fix: lists of operators: adjoint of products, copies
 keep names, flags and clock, index checks

---
 src/qdlib/OList.cpp    | 25 ++++++++++++++++++-------
 src/qdlib/OProduct.cpp | 35 +++++++++++++++++++++++++++++++----
 src/qdlib/OSum.cpp     |  4 +---
 3 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 3003f7e..7fb8781 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -46,7 +46,7 @@ namespace QDLIB {
     */
    Operator * OList::Get(int index)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
       return _O[index];
    }
@@ -82,19 +82,21 @@ namespace QDLIB {
     */
    void OList::Set(int index, Operator *O)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
+      if (O == NULL)
+         throw ( EIncompatible("Operator not initialized") );
       
       _O[index] = O;
       _O[index]->Conj(_conj);
+
+      if (O->isTimeDep()) _isTimedependent = true;
+      if (! O->Hermitian() ) _hermitian = false;
    }
    
    void OList::Set(const string& name, Operator *O)
    {
-      int index = GetIndex(name);
-
-      _O[index] = O;
-      _O[index]->Conj(_conj);
+      Set(GetIndex(name), O);
    }
 
    /**
@@ -188,14 +190,23 @@ namespace QDLIB {
       if (r == NULL)
          throw( EIncompatible ("Incompatible in Assignment", this->Name(), O->Name() ) );
       
+      if (r == this) return this;
+
       _size = r->_size;
+      _NamedEntries = r->_NamedEntries;
+      _params = r->_params;
+      _isTimedependent = r->_isTimedependent;
+      _hermitian = r->_hermitian;
+      _conj = r->_conj;
+      clock = r->clock;
       
       for (int i=0; i < _size; i++){
          _O[i] = r->Get(i)->NewInstance();
          *(_O[i]) = r->_O[i];
+         _O[i]->Conj(_conj);
       }
 
-      return r;
+      return this;
    }
    
    bool OList::Valid(WaveFunction * Psi)
diff --git a/src/qdlib/OProduct.cpp b/src/qdlib/OProduct.cpp
index b26e51d..6113510 100644
--- a/src/qdlib/OProduct.cpp
+++ b/src/qdlib/OProduct.cpp
@@ -53,6 +53,16 @@ namespace QDLIB {
 
     void OProduct::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
+       /* (AB)^dagger = B^dagger A^dagger */
+       if (_conj) {
+          Get(0)->Apply(destPsi, sourcePsi);
+
+          for (int i=1; i < Size(); i++)
+             Get(i)->Apply(destPsi);
+
+          return;
+       }
+
        Get(Size()-1)->Apply(destPsi, sourcePsi);
        
        for (int i=Size()-2; i >= 0; i--)
@@ -62,16 +72,33 @@ namespace QDLIB {
 
     void OProduct::Apply(WaveFunction * Psi)
     {
+       if (_conj) {
+          for (int i=0; i < Size(); i++)
+             Get(i)->Apply(Psi);
+
+          return;
+       }
+
        for (int i=Size()-1; i >= 0; i--)
           Get(i)->Apply(Psi);
     }
 
     void QDLIB::OProduct::ApplyParent(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
-       Get(Size()-1)->ApplyParent(destPsi, sourcePsi);
-       
-       for (int i=Size()-2; i >= 0; i--)
-          Get(i)->ApplyParent(destPsi, destPsi);
+       WaveFunction *buf = sourcePsi->NewInstance();
+
+       for (int i=0; i < Size(); i++) {
+          Operator *O = _conj ? Get(i) : Get(Size()-1-i);
+
+          if (i == 0)
+             O->ApplyParent(destPsi, sourcePsi);
+          else {
+             *buf = destPsi;
+             O->ApplyParent(destPsi, buf);
+          }
+       }
+
+       DELETE_WF(buf);
 
     }
     
diff --git a/src/qdlib/OSum.cpp b/src/qdlib/OSum.cpp
index a03dfcd..685b74b 100644
--- a/src/qdlib/OSum.cpp
+++ b/src/qdlib/OSum.cpp
@@ -110,9 +110,7 @@ namespace QDLIB {
       if (r == NULL)
          throw( EIncompatible ("Incompatible in Assignment", this->Name(), O->Name() ) );
       
-      OList::Copy(O);
-      
-      return r;
+      return OList::Copy(O);
    }
    
 } /* namespace QDLIB */
-- 
2.43.0


From 4724b1c0b15b5c700f82b5976cc0bcb092f8b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 027/101] fix: scalar operator: complex conjugate, copies keep
 parameters

---
 src/qdlib/OScalar.cpp | 14 ++++++++++----
 src/qdlib/OScalar.h   |  3 +++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 927569e..53dbd90 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -42,19 +42,19 @@ namespace QDLIB {
    dcomplex OScalar::MatrixElement(WaveFunction * PsiBra, WaveFunction * PsiKet)
    {
       *_buf = PsiKet;
-      MultElements((cVec*) _buf, _value);
+      MultElements((cVec*) _buf, _Factor());
       return *PsiBra * _buf;
    }
    
    void OScalar::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
    {
-      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _value);
+      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _Factor());
    }
 
    
    void OScalar::Apply(WaveFunction * Psi)
    {
-      MultElements((cVec*) Psi, _value);
+      MultElements((cVec*) Psi, _Factor());
    }
 
    Operator * OScalar::operator =(Operator * O)
@@ -71,7 +71,13 @@ namespace QDLIB {
       if (o == NULL)
          throw ( EIncompatible("Not of type scalar", O->Name() ) );
       
+      if (o == this) return this;
+
+      _params = o->_params;
+      _conj = o->_conj;
       _value = o->_value;
+
+      DELETE_WF(_buf);
       if (o->_buf != NULL)
          _buf = o->_buf->NewInstance();
       
@@ -80,7 +86,7 @@ namespace QDLIB {
    
    bool OScalar::Valid(WaveFunction * Psi)
    {
-      if ( Psi == NULL ) return false;
+      if ( Psi == NULL || _buf == NULL ) return false;
       if ( Psi->size() != _buf->size() ) return false;
       
       return true;
diff --git a/src/qdlib/OScalar.h b/src/qdlib/OScalar.h
index c82a012..f5c3778 100644
--- a/src/qdlib/OScalar.h
+++ b/src/qdlib/OScalar.h
@@ -25,6 +25,9 @@ namespace QDLIB {
          string _name;
          WaveFunction* _buf;
          dcomplex _value;
+
+         /* The factor in use (with respect to Conj). */
+         dcomplex _Factor() const { return _conj ? _value.conj() : _value; }
          
       public:
          OScalar();
-- 
2.43.0


From b5cd65009c9e30bc4d6ce6b6cc4335b878a4f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 028/101] fix: projection operator: buffer for added states,
 copies contain the states

---
 src/qdlib/OProjection.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/qdlib/OProjection.cpp b/src/qdlib/OProjection.cpp
index 52a1613..d0ee5c9 100644
--- a/src/qdlib/OProjection.cpp
+++ b/src/qdlib/OProjection.cpp
@@ -32,12 +32,14 @@ namespace QDLIB {
       if (Psi == NULL)
          throw(EIncompatible("Projector got a void wave function"));
 
+      if (_buf == NULL) {
+         _buf = Psi->NewInstance();
+         _buf->Retire();
+      }
+
       if (Size() > 0)
          return;
 
-      _buf = Psi->NewInstance();
-      _buf->Retire();
-
       /* Read a WF sequence from disk (Has to be here because we need to know the WF type) */
       if (_params.isPresent("files")) {
          string files;
@@ -103,20 +105,25 @@ namespace QDLIB {
       if( o == NULL)
 	 throw(EIncompatible("Projection operator tried to copy wrong operator", O->Name()));
       
-      if ( Size()>0){
-         _destroy();
-         Clear();
-      }
-      
+      if (o == this) return this;
+
+      _destroy();
+      Clear();
+
+      _params = o->_params;
+      _conj = o->_conj;
       _inv = o->_inv;
       _sign = o->_sign; 
       
+      if (o->_buf != NULL) {
+         _buf = o->_buf->NewInstance();
+         _buf->Retire();
+      }
 
-      for (uint i=0; i < Size(); i++){
+      for (uint i=0; i < o->Size(); i++){
          Add((*o)[i]);
       }
 
-
       return this;
    }
       
@@ -151,7 +158,7 @@ namespace QDLIB {
 
    bool OProjection::Valid(WaveFunction * Psi)
    {
-      if ( Psi == NULL ) return false;
+      if ( Psi == NULL || _buf == NULL ) return false;
       
       if (_buf->size() != Psi->size() ) return false;
       
-- 
2.43.0


From 2108be77ce61342046d1d9b59932e5f756e68b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 029/101] fix: multistate operator: adjoint, complete copies,
 index checks

---
 src/qdlib/ODMultistate.cpp |  6 +--
 src/qdlib/OMultistate.cpp  | 91 +++++++++++++++++++++++++-------------
 src/qdlib/OMultistate.h    |  2 +
 3 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 95f87bd..68e9c40 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -45,14 +45,14 @@ namespace QDLIB
       
       lint last_size = wfm->State(0)->size();
       for (int i=1; i < States(); i++){
-         if (last_size != wfm->State(0)->size())
+         if (last_size != wfm->State(i)->size())
             throw( EIncompatible("ODMultistate relies on states with same size") );
       }
       _state_size = last_size;
       
       bool external=false;
       _IsFullDiag=true;
-      _T = new Transform*[States()];
+      _T = new Transform*[States()]();
       
       
       /* Check for transform type & validty of matrix elements */
@@ -95,7 +95,7 @@ namespace QDLIB
       _IsFullDiag = o->_IsFullDiag;
       /* Copy external transformations */ 
       if (o->_T != NULL) {
-         _T = new Transform*[States()];
+         _T = new Transform*[States()]();
          for (int i=0; i < States(); i++){
             for (int j=0; j < States(); j++){
                ODSpace *od =  dynamic_cast<ODSpace*>(State(i,j));
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..88617dd 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -33,6 +33,10 @@ namespace QDLIB
     */
    void OMultistate::Add(Operator *O, int row, int col)
    {
+      if (O == NULL)
+         throw (EIncompatible("Operator not initialized"));
+      if (row < 0 || col < 0)
+         throw (EParamProblem("Multistate: negative index"));
       if (row >= QD_MAX_STATES || col >= QD_MAX_STATES)
 	 throw (EOverflow("Multistate: More than QD_MAX_STATES not possible"));
       
@@ -46,6 +50,7 @@ namespace QDLIB
          
       _matrix[row][col] = O;
       
+      O->Conj(_conj);
       if (O->isTimeDep()) _isTimedependent = true;
       if (!O->Hermitian()) Operator::_hermitian = false;
       
@@ -132,7 +137,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j < _nstates; j++){
 	       if (_matrix[i][j] != NULL)
                   if (_subinit)
 		    _matrix[i][j]->Init(psi->State(j));
@@ -152,7 +157,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j < _nstates; j++){
 	       if (_matrix[i][j] != NULL)
 		  _matrix[i][j]->UpdateTime();
 	    }
@@ -220,8 +225,10 @@ namespace QDLIB
       for (int i = rank; i < _nstates; i += msize) {
          *(dPsi->State(i)) = 0.;
          for (int j = 0; j < _nstates; j++) {
-            if (_matrix[i][j] != NULL) {
-               _matrix[i][j]->ApplyAdd(dPsi->State(i), psi->State(j));
+            Operator *O = _conj ? _matrix[j][i] : _matrix[i][j];
+
+            if (O != NULL) {
+               O->ApplyAdd(dPsi->State(i), psi->State(j));
             } else if (i == j && _unity) { /* Diagonal without operator means 1 */
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
             }
@@ -256,8 +263,10 @@ namespace QDLIB
       int msize = sourcePsi->MPIsize();
       for (int i = rank; i < _nstates; i += msize) {
          for(int j=0; j< _nstates; j++){
-            if (_matrix[i][j] != NULL){
-               _matrix[i][j]->ApplyParent(_buf1->State(i), psi->State(j));
+            Operator *O = _conj ? _matrix[j][i] : _matrix[i][j];
+
+            if (O != NULL){
+               O->ApplyParent(_buf1->State(i), psi->State(j));
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (_buf1->State(i)));
             } else if (i==j && _unity) { /* Diagonal without operator means 1 */
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
@@ -285,36 +294,45 @@ namespace QDLIB
       if (o == NULL)
 	 throw (EIncompatible("Multistate operator copy not possible", O->Name()));
       
+      if (o == this) return this;
+
       _hermitian = o->_hermitian;
       _nstates = o->_nstates;
 
-      _buf1 =  dynamic_cast<WFMultistate*>(o->_buf1->NewInstance());
-      _buf1->Retire();
+      _unity = o->_unity;
+      _subinit = o->_subinit;
+      _params = o->_params;
+      _isTimedependent = o->_isTimedependent;
+      Operator::_hermitian = o->Operator::_hermitian;
+      _conj = o->_conj;
+      clock = o->clock;
 
-      _buf2 =  dynamic_cast<WFMultistate*>(o->_buf2->NewInstance());
-      _buf2->Retire();
+      DELETE_WF(_buf1);
+      DELETE_WF(_buf2);
+      _buf1 = NULL;
+      _buf2 = NULL;
 
-      
-      if (_hermitian){
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= i; j++){
-	       if (o->_matrix[i][j] != NULL){
-		  _matrix[i][j] = o->_matrix[i][j]->NewInstance();
-		  *(_matrix[i][j]) = o->_matrix[i][j];
-		  if (i !=j)
-		     _matrix[j][i] = _matrix[i][j];
-	       }
-	    }
-	 }
-      } else {
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j< _nstates; j++){
-	       if (o->_matrix[i][j] != NULL){
-		  _matrix[i][j] = o->_matrix[i][j]->NewInstance();
-		  *(_matrix[i][j]) = o->_matrix[i][j];
-	       }
-	    }
-	 }
+      if (o->_buf1 != NULL) { /* The original is initialized */
+         _buf1 =  dynamic_cast<WFMultistate*>(o->_buf1->NewInstance());
+         _buf1->Retire();
+
+         _buf2 =  dynamic_cast<WFMultistate*>(o->_buf2->NewInstance());
+         _buf2->Retire();
+      }
+
+      for(int i=0; i< QD_MAX_STATES; i++){
+         for(int j=0; j< QD_MAX_STATES; j++){
+            _matrix[i][j] = NULL;
+            if (o->_matrix[i][j] == NULL) continue;
+
+            if (j < i && o->_matrix[i][j] == o->_matrix[j][i])
+               _matrix[i][j] = _matrix[j][i]; /* Copy pointer only */
+            else {
+               _matrix[i][j] = o->_matrix[i][j]->NewInstance();
+               *(_matrix[i][j]) = o->_matrix[i][j];
+               _matrix[i][j]->Conj(_conj);
+            }
+         }
       }
       return this;
    }
@@ -343,6 +361,17 @@ namespace QDLIB
       return valid;
    }
    
+   void OMultistate::Conj(bool conj)
+   {
+      Operator::Conj(conj);
+      for(int i=0; i< _nstates; i++){
+         for(int j=0; j< _nstates; j++){
+            if (_matrix[i][j] != NULL)
+               _matrix[i][j]->Conj(conj);
+         }
+      }
+   }
+
    void OMultistate::RecalcInternals(bool on)
    {
       Operator::RecalcInternals(on);
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 23b1ff5..48d52b2 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -110,6 +110,8 @@ namespace QDLIB
 	 
          virtual bool Valid(WaveFunction *Psi);
          
+         virtual void Conj(bool conj);
+
          virtual void RecalcInternals(bool on);
    };
 
-- 
2.43.0


From 92d60731141d3752abcdb14f8b4f158bf595c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 030/101] fix: copy of diagonalized matrices

---
 src/qdlib/OHermitianMatrix.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index e7d53b3..a9c994a 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -190,16 +190,24 @@ namespace QDLIB {
 
       *((dMat*) this) = *((dMat*) op);
 
-      if (_X != NULL)
+      if (op->_X != NULL) {
+         if (_X == NULL) _X = new dMat(rows(),rows());
          *_X = *(op->_X);
+         _XT.SetMatrix(_X);
+      }
 
-      if (_dspace != NULL)
+      if (op->_dspace != NULL) {
+         if (_dspace == NULL) _dspace = new dVec(rows());
          *_dspace = *(op->_dspace);
+      } else if (_dspace != NULL) { /* Doesn't belong to this matrix anymore */
+         delete _dspace;
+         _dspace = NULL;
+      }
 
-      op->_XT.SetMatrix(op->_X);
       _params =  op->Params();
+      _conj = op->_conj;
 
-      _valid = op->_valid;
+      _valid = op->_valid && _X != NULL && _dspace != NULL;
       return this;
    }
 
-- 
2.43.0


From 25fbad0a178c024e81bd116f7c490c99e860f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 031/101] fix: position operator: copies, extreme values

---
 src/qdlib/OGridPosition.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..1404067 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -4,6 +4,7 @@
 
 #include "OGridPosition.h"
 #include "WFGridSystem.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -85,12 +86,12 @@ namespace QDLIB {
 
    dcomplex OGridPosition::Emax()
    {
-      return(dcomplex(GridSystem::Xmax(_dim)));
+      return(dcomplex(VecMax((dVec&) *this)));
    }
    
    dcomplex OGridPosition::Emin()
    {
-      return(dcomplex(GridSystem::Xmin(_dim)));
+      return(dcomplex(VecMin((dVec&) *this)));
    }
 
    
@@ -112,6 +113,15 @@ namespace QDLIB {
 
    Operator * OGridPosition::Copy(Operator * O)
    {
+      OGridPosition *o = dynamic_cast<OGridPosition*>(O);
+
+      if (o == NULL)
+         throw ( EIncompatible("O is not of type OGridPosition", O->Name()) );
+
+      _params = o->_params;
+      _dim = o->_dim;
+      _scale = o->_scale;
+
       OGridSystem::Copy(O);
       return this;
    }
-- 
2.43.0


From dcf165a294568620b760f758bb61e1d82b9f6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 032/101] fix: grid sum: more than two operators, clock, grid,
 independent copies

---
 src/qdlib/OGridSum.cpp | 36 ++++++++++++++++++++++++++----------
 src/qdlib/OGridSum.h   |  2 ++
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 0a83266..c7e97f0 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -32,12 +32,10 @@ namespace QDLIB {
 	 (*((dVec*) this))[i] = (*(_O[0]))[i];
       
       
-      int k;
-      if (_size > 1) {
-	 for (k=1; k < _size; k++)             /* Loop over operators */
-	    _O[k]->UpdateTime();
-	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
-	       (*this)[i] += (*(_O[k]))[i];
+      for (int k=1; k < _size; k++) {           /* Loop over operators */
+	 _O[k]->UpdateTime();
+	 for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
+	    (*this)[i] += (*(_O[k]))[i];
       }
       _isUpTodate = true;
       
@@ -56,6 +54,13 @@ namespace QDLIB {
 	 throw ( EIncompatible("Operator and WF differ in size") );
    }
 
+   void OGridSum::Clock( QDClock *cl )
+   {
+      clock = cl;
+      for (int i=0; i < _size; i++)
+	 _O[i]->Clock(clock);
+   }
+
    void OGridSum::UpdateTime( )
    {
       if (_size > 0) _Update();
@@ -137,15 +142,24 @@ namespace QDLIB {
       if (org == NULL)
 	 throw ( EIncompatible("O is not of type OGridSum", O->Name()) );
       
+      if (org == this) return this;
+
       /* Copy the parent */
       OGridSystem::Copy(O);
+      clock = org->clock;
       
       _isTimedependent = org->_isTimedependent;
             
       /* copy our stuff */
       _size = org->_size;
-      for (int i=0; i< MAX_OPS; i++)
-	 _O[i] = org->_O[i];
+      for (int i=0; i< MAX_OPS; i++) {
+	 _O[i] = NULL;
+	 if (i >= _size) continue;
+
+	 Operator *op = org->_O[i]->NewInstance();
+	 *op = org->_O[i];
+	 _O[i] = dynamic_cast<OGridSystem*>(op);
+      }
       _isUpTodate = org->_isUpTodate;
       
       return this;
@@ -156,7 +170,7 @@ namespace QDLIB {
     */
    OGridSystem* OGridSum::Get( int i )
    {
-      if (i >= _size)
+      if (i < 0 || i >= _size)
 	 throw( EIncompatible("Access to empty element") );
       return _O[i];
    }
@@ -186,8 +200,10 @@ namespace QDLIB {
       if ( O->size() != dVec::size() )
 	 throw ( EParamProblem("Sum Operator can only take operators with same grid size") );
       
+      if (_size == 0) *((GridSystem*) this) = *((GridSystem*) O);
+
       if (O->isTimeDep()) _isTimedependent = true;
-      O->Clock(clock);
+      if (clock != NULL) O->Clock(clock);
       
       _O[_size] = O;
       _size++;
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index 7cbaaa5..d174cd0 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -50,6 +50,8 @@ namespace QDLIB {
 	 
 	 virtual const string& Name();
 	 
+	 virtual void Clock(QDClock *cl);
+
 	 virtual void UpdateTime();
 	 
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
-- 
2.43.0


From e4ea676548a5510446922758b7e09899870b5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 033/101] fix: operators constructed with parameters are
 completely initialized

---
 src/qdlib/Operator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/Operator.h b/src/qdlib/Operator.h
index 32c1616..116b209 100644
--- a/src/qdlib/Operator.h
+++ b/src/qdlib/Operator.h
@@ -130,7 +130,8 @@ namespace QDLIB {
 	 /**
 	  * Constructor with full parameter set.
 	  */
-	 Operator(ParamContainer &params):  _params(params), _isTimedependent(false)
+	 Operator(ParamContainer &params) : _recalc(true), _buf(NULL), _buf1(NULL), _params(params),
+	                      _isTimedependent(false), clock(NULL), _conj(false), _hermitian(true)
 	 {
          }
 
-- 
2.43.0


From 3cd75bfaac4fc889de16e09c428f92bb4cf2dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 034/101] fix: assignment of laser fields takes over the
 scaling factor

---
 src/qdlib/Laser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..93f6d29 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -157,6 +157,7 @@ namespace QDLIB {
       _clock = laser._clock;
        _params = laser._params;
       _dt = laser._dt;
+      _scale = laser._scale;
       if (_spectrum != NULL){
          delete _spectrum;
          _spectrum = NULL;
-- 
2.43.0


From 8e990f981322205071fb2ed91f82cc9920dde00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 035/101] fix: vector views can return to a dimension, sum
 returns its result

---
 src/math/VectorView.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 18c25d8..58d82bb 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -94,8 +94,14 @@ namespace QDLIB
       
       _adim = dim;
       
+      /* Determine how many times one x_i value is present */
+      _nothers = 1;
+      for(int i=0; i < _ndims; i++)
+      {
+	 if (i != dim) _nothers *= _dims[i];
+      }
+
       if (_view[dim] == NULL){
-	 _nothers = 1;
 	 int lothers = 1;
 	 
 	 /* Determine how many values in the lower dims are  present */
@@ -105,12 +111,6 @@ namespace QDLIB
 	       lothers *= _dims[i];
 	 }
 	 
-	 /* Determine how many times one x_i value is present */
-	 for(int i=0; i < _ndims; i++)
-	 {
-	    if (i != dim) _nothers *= _dims[i];
-	 }
-	 
 	 /* Reserve space for active dimension*/
 	 _view[dim] = new T**[_dims[dim]];
 	 /* Set the pointer array */
@@ -151,6 +151,7 @@ namespace QDLIB
 	    (*r)[j] += *(_view[_adim][i][j]);
 	 }
       }
+      return r;
    }
    
    /**
-- 
2.43.0


From 2228d27247d61521ed788b48f1541d9e10f6765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 036/101] fix: copies of operator compositions keep the adjoint
 flag of every element

---
 src/qdlib/OList.cpp       | 2 +-
 src/qdlib/OMultistate.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 7fb8781..420fa0c 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -203,7 +203,7 @@ namespace QDLIB {
       for (int i=0; i < _size; i++){
          _O[i] = r->Get(i)->NewInstance();
          *(_O[i]) = r->_O[i];
-         _O[i]->Conj(_conj);
+         if (_O[i]->Conj() != r->_O[i]->Conj()) _O[i]->Conj(r->_O[i]->Conj());
       }
 
       return this;
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 88617dd..40e9b23 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -330,7 +330,8 @@ namespace QDLIB
             else {
                _matrix[i][j] = o->_matrix[i][j]->NewInstance();
                *(_matrix[i][j]) = o->_matrix[i][j];
-               _matrix[i][j]->Conj(_conj);
+               if (_matrix[i][j]->Conj() != o->_matrix[i][j]->Conj())
+                  _matrix[i][j]->Conj(o->_matrix[i][j]->Conj());
             }
          }
       }
-- 
2.43.0


From ee209988481a199e20cd2cd6d9a68dffd35f8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 037/101] fix: copying an uninitialized scalar operator leaves
 no deleted buffer

---
 src/qdlib/OScalar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 53dbd90..054effd 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -78,6 +78,7 @@ namespace QDLIB {
       _value = o->_value;
 
       DELETE_WF(_buf);
+      _buf = NULL;
       if (o->_buf != NULL)
          _buf = o->_buf->NewInstance();
       
-- 
2.43.0


From b88f0d0e5a5f5221e39468c2e769ca5d45b937db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 038/101] fix: Lanczos and Arnoldi propagators normalise the
 start vector, handle eigenstates

---
 src/qdlib/OArnoldi.cpp | 34 ++++++++++++++++++---------
 src/qdlib/OArnoldi.h   |  1 +
 src/qdlib/OSIL.cpp     | 53 +++++++++++++++++++++++++++++++-----------
 src/qdlib/OSIL.h       |  3 ++-
 4 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index a39e7ff..e9a455a 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -12,7 +12,7 @@ namespace QDLIB
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OArnoldi)
 
    OArnoldi::OArnoldi() :
-            OPropagator(), _name("OArnoldi"), _maxorder(ARNOLDI_DEF_ORDER), _order(ARNOLDI_DEF_ORDER), _conv(ARNOLDI_CONV),
+            OPropagator(), _name("OArnoldi"), _maxorder(ARNOLDI_DEF_ORDER), _order(ARNOLDI_DEF_ORDER), _conv(ARNOLDI_CONV), _psinorm(0),
             buf0(NULL), buf1(NULL)
    {
    }
@@ -88,10 +88,19 @@ namespace QDLIB
       buf0->Reaquire();
       buf1->Reaquire();
 
-      double PsiNorm = Psi->Norm();
+      _psinorm = Psi->Norm();
+      _order = 1;
 
-      *buf1 = Psi;
+      if (_psinorm == 0) { /* Nothing to propagate */
+         _HA.newsize(1, 1);
+         _HA(0, 0) = 0;
+         buf0->Retire();
+         buf1->Retire();
+         return;
+      }
 
+      /* The Arnoldi vectors are orthonormal */
+      MultElementsCopy((cVec*) buf1, (cVec*) Psi, 1 / _psinorm);
       _Lzb.Set(0, buf1);
 
       _tHA = dcomplex(0);
@@ -121,12 +130,12 @@ namespace QDLIB
          _order = it+1;
 
          /* Estimate the error of the next L-vector */
-         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0) * PsiNorm;
+         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0);
          for (int i=1; i < it - 2; i++){
             err *=  _tHA(i+1,i) / double(i);
          }
 
-         if (cabs(err) > PsiNorm)
+         if (cabs(err) > 1)
            cout << "Warning: Lanczos expansion becomes unstable: " << cabs(err) << endl;
 
          if (cabs(err) < _conv) break;
@@ -194,7 +203,7 @@ namespace QDLIB
         cout << "Warning: Arnoldi series expansion is not converged: " << last <<  " > " << _conv << endl;
 
       for (int i = 1; i < _order; i++) {
-         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i] * _psinorm);
       }
    }
 
@@ -231,13 +240,16 @@ namespace QDLIB
       _maxorder = o->_maxorder;
 
       InitBuffers();
-      buf0 = o->buf0->NewInstance();
-      buf1 = o->buf0->NewInstance();
+      _order = o->_order;
+      _conv = o->_conv;
 
-      H = o->H->NewInstance();
-      H->Copy(o->H);
+      /* Buffers are created in Init, the hamiltonian is taken from the list */
+      DELETE_WF(buf0);
+      DELETE_WF(buf1);
+      buf0 = NULL;
+      buf1 = NULL;
+      H = NULL;
 
-      OPropagator::Copy(o);
       return this;
    }
 
diff --git a/src/qdlib/OArnoldi.h b/src/qdlib/OArnoldi.h
index c074d73..16c0e3c 100644
--- a/src/qdlib/OArnoldi.h
+++ b/src/qdlib/OArnoldi.h
@@ -32,6 +32,7 @@ namespace QDLIB {
             int _maxorder;     /* Max. Recursion depth, size of basis */
             int _order;        /* Converged order of */
             double _conv;      /* Convergence criteria */
+            double _psinorm;   /* Norm of the propagated wave function */
             WFBuffer _Lzb;     /* Buffer for Lanczos basis */
             WaveFunction *buf0, *buf1;   /* Buffers */
             cVec _evals;      /* Eigenvalues */
diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 325e7e8..726163b 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -11,7 +11,7 @@ namespace QDLIB {
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OSIL)
 	 
     OSIL::OSIL()
-            : OPropagator(), _name("OSIL"), _order(SIL_DEF_ORDER), _convorder(SIL_DEF_ORDER),  _err(SIL_DEF_ERR), buf0(NULL), buf1(NULL), buf2(NULL)
+            : OPropagator(), _name("OSIL"), _order(SIL_DEF_ORDER), _convorder(SIL_DEF_ORDER),  _err(SIL_DEF_ERR), _psinorm(0), buf0(NULL), buf1(NULL), buf2(NULL)
     {
     }
 
@@ -89,10 +89,19 @@ namespace QDLIB {
 
         _alpha =  0;
         _beta = 0;
+        _convorder = 1;
 
-        double psinorm = Psi->Norm();
+        _psinorm = Psi->Norm();
 
-        _Lzb.Set(0, Psi);
+        if (_psinorm == 0) { /* Nothing to propagate */
+           buf0->Retire();
+           buf1->Retire();
+           return;
+        }
+
+        /* The Lanczos vectors are orthonormal */
+        MultElementsCopy((cVec*) buf1, (cVec*) Psi, 1 / _psinorm);
+        _Lzb.Set(0, buf1);
         H->Apply(buf0,  _Lzb[0]);           /* H*q_0 */
         H->RecalcInternals(false);  /* Non-linear operator must not re-calculate internal WF specific values until end of recursion */
         _alpha[0] = (*(_Lzb[0]) * buf0).real();     /* a_0 = <q_0 | H | _q0 > */
@@ -103,6 +112,14 @@ namespace QDLIB {
 
         _beta[0] = _Lzb[1]->Norm();
 
+        if (_beta[0] < SIL_UNDERRUN) { /* The wave function is an eigenstate */
+           _beta[0] = 0;
+           H->RecalcInternals(true);
+           buf0->Retire();
+           buf1->Retire();
+           return;
+        }
+
         *(_Lzb[1]) *= 1 / _beta[0];     /* b0 = Norm(q1) = <q1 | H | q0 > */
 
         _convorder = 2;
@@ -116,14 +133,14 @@ namespace QDLIB {
            err = cabs(err);
 
 
-           if (err > psinorm){
+           if (err > 1){
               cout << "Warning: Lanczos expansion becomes unstable: " << err << endl;
               //break;
            }
            _convorder++;
 
            if (it == _order - 1)
-              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err * psinorm << endl;
+              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err << endl;
 
             /* buf0 = H * q_i-1 */
             H->Apply(_Lzb[it], _Lzb[it-1]);
@@ -137,6 +154,12 @@ namespace QDLIB {
 
             _beta[it-1] = _Lzb[it]->Norm();
 
+            if (_beta[it-1] < SIL_UNDERRUN) { /* The Lanczos space is complete */
+               _beta[it-1] = 0;
+               _convorder = it;
+               break;
+            }
+
             *(_Lzb[it]) *= 1 / _beta[it-1];
 
             /* Check orthogonality of LZB */
@@ -147,7 +170,7 @@ namespace QDLIB {
             }
 
             /* convergence reached */
-            if (err < _err * psinorm) break;
+            if (err < _err) break;
         }
 
         _alpha[it-1] = H->Expec(_Lzb[it-1]);
@@ -180,7 +203,7 @@ namespace QDLIB {
         *Psi *= _vect[0];
 
         for (int i = 1; i < _convorder; i++){
-            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i] * _psinorm);
         }
     }
 
@@ -216,13 +239,17 @@ namespace QDLIB {
         _order = o->_order;
         
         InitBuffers();
-        buf0 = o->buf0->NewInstance();
-        buf1 = o->buf0->NewInstance();
-        buf2 = o->buf0->NewInstance();
-        
-        H = o->H->NewInstance();
-        H->Copy(o->H);
+        _err = o->_err;
 
+        /* Buffers are created in Init, the hamiltonian is taken from the list */
+        DELETE_WF(buf0);
+        DELETE_WF(buf1);
+        DELETE_WF(buf2);
+        buf0 = NULL;
+        buf1 = NULL;
+        buf2 = NULL;
+        H = NULL;
+        
         return this;
     }
 
diff --git a/src/qdlib/OSIL.h b/src/qdlib/OSIL.h
index 46cf58d..f933222 100644
--- a/src/qdlib/OSIL.h
+++ b/src/qdlib/OSIL.h
@@ -10,7 +10,7 @@
 
 #define SIL_DEF_ORDER 20
 #define SIL_DEF_ERR 1e-12
-
+#define SIL_UNDERRUN 1e-14   /* Norm of a zero vector */
 namespace QDLIB {
 
     /**
@@ -29,6 +29,7 @@ namespace QDLIB {
             int _order;       /* Max. Recursion depth, size of basis */
             int _convorder;    /* Converged order of */
             double _err;       /* Error bound to use */
+	    double _psinorm;   /* Norm of the propagated wave function */
             WFBuffer _Lzb;  /* Buffer for Lanczos basis */
             WaveFunction *buf0, *buf1, *buf2;   /* Buffers */ 
             dVec _alpha;      /* Store alpha coeffs */
-- 
2.43.0


From cc172ce6f0bd1d9430a710ac45b57db7a3ee784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 039/101] fix: Runge-Kutta propagator follows the direction and
 copies completely

---
 src/qdlib/ORK4.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..b1fe217 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -42,12 +42,13 @@ namespace QDLIB
 
       OPropagator::Init(Psi);
       H->Init(Psi);
+      H->Clock(Operator::Clock());
    }
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
@@ -111,21 +112,23 @@ namespace QDLIB
 
       o = dynamic_cast<ORK4*>(O);
       if (o == NULL)
-         throw (EIncompatible("ORK4: Can't copy operator"), O->Name());
+         throw (EIncompatible("ORK4: Can't copy operator", O->Name()));
 
 
       OPropagator::Copy(O);
 
       for (int i=0; i < 5; i++){
          DELETE_WF(_buf[i]);
-         _buf[i] = o->_buf[0]->NewInstance();
+         _buf[i] = NULL; /* Created in Init */
       }
-
+      H = NULL;
       return this;
    }
 
    bool ORK4::Valid(WaveFunction *Psi)
    {
+      if (H == NULL) return false;
+
       return H->Valid(Psi);
    }
 
-- 
2.43.0


From ec271bdcaea11eada5670070bcca03000689e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 040/101] fix: Chebychev propagator: complete copy, norm
 without a data race, Hamiltonian of zero range

---
 src/qdlib/OCheby.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a52cf6a..abfbfd2 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -72,7 +72,7 @@ namespace QDLIB
       double norm(0);
 
 #ifdef _OPENMP
-#pragma omp parallel for shared(norm)
+#pragma omp parallel for reduction(+:norm)
 #endif
       for (int s = rank; s < strides; s += msize) {
          double lnorm(0);
@@ -343,10 +343,17 @@ namespace QDLIB
       clock = P->clock;
 
       /* Copy own stuff */
-      if (H != NULL)
-         DELETE_OP(H);
-      H = P->H->NewInstance();
-      *H = P->H;
+      /* Buffers are created in Init, the hamiltonian is taken from the list */
+      DELETE_WF(ket0);
+      DELETE_WF(ket1);
+      DELETE_WF(ket2);
+      DELETE_WF(buf);
+      ket0 = NULL;
+      ket1 = NULL;
+      ket2 = NULL;
+      buf = NULL;
+      H = NULL;
+      _prec = P->_prec;
       _order = P->_order;
       _coeff = P->_coeff;
       _scaling = P->_scaling;
@@ -358,12 +365,11 @@ namespace QDLIB
    void OCheby::Init( WaveFunction *Psi )
    {
       H = Get("hamiltonian");
-      H->Clock(Operator::Clock());
-      H->Init(Psi);
-
       if (H == NULL)
          throw ( EParamProblem("Chebychev Progagator is missing a hamiltonian") );
 
+      H->Clock(Operator::Clock());
+      H->Init(Psi);
       /* Parent Initalization */
       OPropagator::Init(Psi);
 
@@ -415,6 +421,9 @@ namespace QDLIB
       else
          _scaling = cabs(Emax - Emin) / 2;
 
+      /* The hamiltonian is proportional to unity */
+      if (_scaling == 0)
+         _scaling = 1 / clock->Dt();
       /* This is an estimate for the recursion depth */
       if (_order <= 0)
          _order = abs(int(20 * _scaling * clock->Dt()));
@@ -494,6 +503,8 @@ namespace QDLIB
 
    bool OCheby::Valid(WaveFunction * Psi)
    {
+      if (H == NULL) return false;
+
       return H->Valid(Psi);
    }
 
-- 
2.43.0


From 463cc939aff93d8e0602d79ad6225efe3f724ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 041/101] fix: multistate operator: energy range keeps signs
 and includes the couplings both ways

---
 src/qdlib/OMultistate.cpp | 40 +++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 40e9b23..39f2ed4 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -165,6 +165,28 @@ namespace QDLIB
       }
    }
    
+   /**
+    * Energy bound of one element.
+    *
+    * The sign of the diagonal elements matters. The coupling elements
+    * move the energies in both directions.
+    */
+   static double EnergyBound(Operator *O, bool diagonal, bool max)
+   {
+      dcomplex emax = O->Emax();
+      dcomplex emin = O->Emin();
+      dcomplex e = max ? emax : emin;
+
+      if (diagonal)
+         return e.imag() == 0 ? e.real() : cabs(e);
+
+      if (O->isTimeDep()) /* estimated by the operator itself */
+         return cabs(e);
+
+      double c = cabs(emax) > cabs(emin) ? cabs(emax) : cabs(emin);
+      return max ? c : -c;
+   }
+
    dcomplex OMultistate::Emax()
    {
       dMat Mmax;
@@ -176,11 +198,12 @@ namespace QDLIB
       
       for(int i=0; i< _nstates; i++){
          for(int j=0; j < _nstates; j++){
-	    if (_matrix[i][j] != NULL)
-               Mmax(i,j) = cabs(_matrix[i][j]->Emax());
-	 }
+            if (_matrix[i][j] != NULL)
+               Mmax(i,j) = EnergyBound(_matrix[i][j], i == j, true);
+            else if (i == j && _unity)
+               Mmax(i,j) = 1;
+         }
       }
-      
       LAPACK::FullDiagHermitian(&Mmax, &Evals);
       
       return dcomplex(VecMax(Evals));
@@ -197,11 +220,12 @@ namespace QDLIB
       
       for(int i=0; i< _nstates; i++){
          for(int j=0; j < _nstates; j++){
-	    if (_matrix[i][j] != NULL)
-               Mmin(i,j) = cabs(_matrix[i][j]->Emin());
-	 }
+            if (_matrix[i][j] != NULL)
+               Mmin(i,j) = EnergyBound(_matrix[i][j], i == j, false);
+            else if (i == j && _unity)
+               Mmin(i,j) = 1;
+         }
       }
-      
       LAPACK::FullDiagHermitian(&Mmin, &Evals);
       
       return dcomplex(VecMin(Evals));
-- 
2.43.0


From fdae6ddb4aa6daab93888d241b696a71a2aea530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 042/101] fix: propagators pass their clock to the operators

---
 src/qdlib/OPropagator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index b9a119b..030266d 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -44,7 +44,7 @@ namespace QDLIB {
 	 
 	 virtual void Clock(QDClock *cl)
 	 {
-	    clock = cl;
+	    OList::Clock(cl);
 	    _c0 = I*clock->Dt();
 
 	    if (forward)
@@ -158,6 +158,8 @@ namespace QDLIB {
 	 {
 	   
 	    OPropagator *P = dynamic_cast<OPropagator*>(O);
+	    if (P == NULL)
+	       throw (EIncompatible("Incompatible Assignment", this->Name(), O->Name()));
 	    clock = P->clock;
 	    _c0 = P->_c0;
 	    forward = P->forward;
-- 
2.43.0


From 8f69b8cfe29d46d8d0f72a541322c5ccf100a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 043/101] fix: diagonal multistate operator without diagonal
 elements

---
 src/qdlib/ODMultistate.cpp | 22 ++++++++++++++++++----
 src/qdlib/TransformMSD.cpp |  7 ++-----
 src/qdlib/TransformMSD.h   |  2 +-
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 68e9c40..756a207 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -123,7 +123,10 @@ namespace QDLIB
          if (_IsFullDiag){ /* Diagonal H*/
             for (int k = 0; k < States(); k++) {
                ODSpace *state = dynamic_cast<ODSpace*>(State(k,k));
-               _dspace->StrideCopy(*(state->Dspace()), 0,k);
+               if (state != NULL)
+                  _dspace->StrideCopy(*(state->Dspace()), 0,k);
+               else /* Empty element */
+                  for (lint i = 0; i < _state_size; i++) _dspace->begin(k)[i] = Unity() ? 1 : 0;
             }
          }
          
@@ -146,7 +149,7 @@ namespace QDLIB
                      ODSpace *state = dynamic_cast<ODSpace*>(State(k,l));
                      (*(_X[i]))(k,l) = (*(state->Dspace()))[i];  /* get gridpoint */ 
                   } else
-                     (*(_X[i]))(k,l) = 0;
+                     (*(_X[i]))(k,l) = (k == l && Unity()) ? 1 : 0;
                }
             }
             LAPACK::FullDiagHermitian(_X[i], &evals);
@@ -160,7 +163,10 @@ namespace QDLIB
       } else if (_T != NULL) { /* Use external diagonalization, copy dspace */
          for (int s=0; s < States(); s++){
             ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
-            _dspace->StrideCopy(*(state->Dspace()), 0, s);
+            if (state != NULL)
+               _dspace->StrideCopy(*(state->Dspace()), 0, s);
+            else /* Empty element */
+               for (lint i = 0; i < _state_size; i++) _dspace->begin(s)[i] = Unity() ? 1 : 0;
          }
       }
       
@@ -174,7 +180,15 @@ namespace QDLIB
          cVec tmpe(_state_size);
          for (int s=0; s < States(); s++){
             ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
-            state->InitExponential(&tmpe, c);
+            if (state != NULL)
+               state->InitExponential(&tmpe, c);
+            else /* Empty element */
+               tmpe = Unity() ? cexp(c) : dcomplex(1);
+
+            /* Include transform normalization here */
+            if (_T[s] != NULL)
+               tmpe *= _T[s]->Normalization();
+
             if (!exp->StrideCopy(tmpe, 0, s))
                throw ( EIncompatible ("Stride Error"));
          }
diff --git a/src/qdlib/TransformMSD.cpp b/src/qdlib/TransformMSD.cpp
index 7af408a..8cce056 100644
--- a/src/qdlib/TransformMSD.cpp
+++ b/src/qdlib/TransformMSD.cpp
@@ -9,7 +9,7 @@
 namespace QDLIB
 {
 
-   TransformMSD::TransformMSD() : _X(NULL), _T(NULL), _norm(1)
+   TransformMSD::TransformMSD() : _X(NULL), _T(NULL)
    {
 
    }
@@ -21,8 +21,7 @@ namespace QDLIB
 
    double TransformMSD::Normalization()
    {
-      if (_T != NULL) return _T[0]->Normalization();
-      else return _norm;
+      return 1;
    }
    
 }
@@ -39,7 +38,6 @@ void QDLIB::TransformMSD::Forward(WaveFunction * Psi)
       for (int i=0; i < states; i++){
          if( _T[i] != NULL) {
             _T[i]->Forward(wfm->State(i));
-            _norm = _T[i]->Normalization();
          }
       }
       wfm->IsKspace(true);
@@ -75,7 +73,6 @@ void QDLIB::TransformMSD::Backward(WaveFunction * Psi)
       for (int i=0; i < states; i++){
          if( _T[i] != NULL) {
             _T[i]->Backward(wfm->State(i));
-            _norm = _T[i]->Normalization();
          }
       }
       wfm->IsKspace(false);
diff --git a/src/qdlib/TransformMSD.h b/src/qdlib/TransformMSD.h
index 2102e6b..8d1077d 100644
--- a/src/qdlib/TransformMSD.h
+++ b/src/qdlib/TransformMSD.h
@@ -26,13 +26,13 @@ namespace QDLIB
          dMat **_X;        /* Array of Matrices, one per grid point*/
          bool _adjoint;    /* Can we use the adjoint Matrix? */
          Transform **_T;     /* External Transformation, array over states */
-         double _norm;     /* Last normalizationn factor */
       public:
          TransformMSD();
          virtual ~TransformMSD();
 
          virtual void Forward(WaveFunction *Psi);
          virtual void Backward(WaveFunction *Psi);
+         /** Always 1, states can differ: ODMultistate includes it in the exponential. */
          virtual double Normalization();
          
          /**
-- 
2.43.0


From 7260ff1367dc0f1e38997e32b47675cab535854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 044/101] fix: split operator propagator: validity, copies

---
 src/qdlib/OGSPO.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 2fd0f6e..79501dc 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -19,6 +19,7 @@ namespace QDLIB
 
    OGSPO::~OGSPO()
    {
+      /* Only the sum is ours, not its elements */
       DELETE_OP(H);
    }
 
@@ -152,28 +153,30 @@ namespace QDLIB
 
       OPropagator::Copy(O); /* Copy parent */
 
-      _spoLen = o->_spoLen;
+      if (o == this) return this;
 
-      for (int i = 0; i < _spoLen; i++) {
-         _ops[i] = dynamic_cast<ODSpace*>(o->_ops[i]->NewInstance());
-         _ops[i]->Copy(o->_ops[i]);
-         _exp[i].newsize(o->_exp[i].size(), o->_exp[i].strides());
+      /* The operators are taken from the list in Init */
+      DELETE_OP(H);
+      H = NULL;
+      _spoLen = 0;
+      for (int i = 0; i < MAX_OPS; i++) {
+         _ops[i] = NULL;
+         _exp[i].newsize(0);
       }
       _laststep = -1;
-
       return this;
    }
 
    bool OGSPO::Valid(WaveFunction *Psi)
    {
-      bool valid = false;
+      if (Psi == NULL || _spoLen < 1) return false;
 
       for (int i = 0; i < _spoLen; i++) {
          if (_ops[i]->Valid(Psi) == false)
             return false;
       }
 
-      return valid;
+      return true;
    }
 
 }
-- 
2.43.0


From b974b6ec415ff008f39664d014f7b9a9624c532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 045/101] fix: grid sum: MAX_OPS clashes with the definition of
 the operator list

---
 src/qdlib/OGridSum.cpp | 6 +++---
 src/qdlib/OGridSum.h   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index c7e97f0..ffea056 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -11,7 +11,7 @@ namespace QDLIB {
    OGridSum::OGridSum()
    : OGridSystem(), _name("OGridSum"), _size(0), _isUpTodate(false)
    {
-      for (int i=0; i < MAX_OPS; i++)
+      for (int i=0; i < MAX_GRID_OPS; i++)
 	 _O[i] = NULL;
    }
    
@@ -152,7 +152,7 @@ namespace QDLIB {
             
       /* copy our stuff */
       _size = org->_size;
-      for (int i=0; i< MAX_OPS; i++) {
+      for (int i=0; i< MAX_GRID_OPS; i++) {
 	 _O[i] = NULL;
 	 if (i >= _size) continue;
 
@@ -188,7 +188,7 @@ namespace QDLIB {
     */
    void OGridSum::Add( OGridSystem * O )
    {
-      if (_size >= MAX_OPS) {
+      if (_size >= MAX_GRID_OPS) {
 	 throw ( EOverflow("Maximum numbers of operators reached") );
       }
       if (O == NULL){
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index d174cd0..6e32093 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -7,7 +7,7 @@
 
 #include "qdlib/OGridsystem.h"
 
-#define MAX_OPS 16
+#define MAX_GRID_OPS 16
 
 namespace QDLIB {
 
@@ -26,7 +26,7 @@ namespace QDLIB {
       private:
 	 string _name;
 	 int _size;
-	 OGridSystem* _O[MAX_OPS];
+	 OGridSystem* _O[MAX_GRID_OPS];
 	 bool _isUpTodate;
 	 
 	 void _Update();
-- 
2.43.0


From 0926aad23d22907e6160b5e94f33617e5b460995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 046/101] fix: kinetic energy: dimensions without mass are left
 out, copies set up their k-space

---
 src/qdlib/OGridNablaSq.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index 2a22f95..ee57246 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -48,7 +48,8 @@ namespace QDLIB
             throw(EParamProblem("Zero mass defined"));
          if (_mass[i] > 0) eff = true;
 
-         masses[i] = -1./2./_mass[i];
+         /* Dimensions without a mass are left out */
+         masses[i] = _mass[i] > 0 ? -1./2./_mass[i] : 0;
       }
 
       if (!eff)
@@ -127,15 +128,22 @@ namespace QDLIB
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
 
-      if (_dspace == NULL && org->_dspace != NULL) {
-         _dspace = new dVec();
-         *_dspace = *(org->_dspace);
-      }
+      if (org == this) return this;
 
-      for (int i = 0; i < GridSystem::Dim(); i++) {
-         _mass[i] = org->_mass[i];
-      }
+      _mass = org->_mass;
 
+      /* Set up the k-space representation as in Init */
+      dVec masses(_mass.size());
+      for (int i = 0; i < _mass.size(); i++)
+         masses[i] = _mass[i] > 0 ? -1./2./_mass[i] : 0;
+      Diff::Factors(masses);
+
+      _dspace = NULL;
+      if (org->_dspace != NULL) {
+         Diff::SetGrid(*this);
+         Diff::InitParams(_params);
+         InitDspace();
+      }
       return this;
    }
 
-- 
2.43.0


From 1e121169e8393c71fe0ff3f51e7a82618c79db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 047/101] fix: FFT transformation knows its normalization
 before the first transform

---
 src/qdlib/Diff.h         | 2 +-
 src/qdlib/TransformFFT.h | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/Diff.h b/src/qdlib/Diff.h
index b3cd464..6d5cdae 100644
--- a/src/qdlib/Diff.h
+++ b/src/qdlib/Diff.h
@@ -65,7 +65,7 @@ namespace QDLIB
 
          void InitParams(ParamContainer pm);
 
-         void SetGrid(GridSystem &grid) { _grid = grid; }
+         void SetGrid(GridSystem &grid) { _grid = grid; _FFT.Size(grid.Size()); }
          const GridSystem& GetGrid() { return _grid; }
 
          /**
diff --git a/src/qdlib/TransformFFT.h b/src/qdlib/TransformFFT.h
index 87cafc5..30befbb 100644
--- a/src/qdlib/TransformFFT.h
+++ b/src/qdlib/TransformFFT.h
@@ -28,6 +28,9 @@ namespace QDLIB
          
          virtual double Normalization(){ return _norm; }
 
+         /** Number of grid points, determines the normalization. */
+         void Size(int size) { if (size > 0) _norm = 1./size; }
+
          void Forward(WaveFunction *Psi, int dim);
          void Backward(WaveFunction *Psi, int dim);
    };
-- 
2.43.0


From 07a9be1811a0edc2845e663e2eed024fb1222bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 048/101] fix: copies of the momentum operator keep the
 dimension

---
 src/qdlib/OGridNabla.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..31ef784 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -132,10 +132,17 @@ namespace QDLIB {
 
       *((GridSystem*) this) = *((GridSystem*) o);
 
-      if (_kspace == NULL)
-         _kspace = new dVec(GridSystem::Size(), true);
+      _dim = o->_dim;
+
+      if (_kspace != NULL && o != this) {
+         delete _kspace;
+         _kspace = NULL;
+      }
 
-      *_kspace = *(o->_kspace);
+      if (_kspace == NULL && o->_kspace != NULL) {
+         _kspace = new dVec(GridSystem::Size(), true);
+         *_kspace = *(o->_kspace);
+      }
 
       return this;
    }
-- 
2.43.0


From 91988f5b2cc2e57c2070cd316379a36d7132e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 049/101] fix: WFLevel compression keeps negative amplitudes

---
 src/qdlib/WFLevel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 238a329..f680ef8 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -110,12 +110,12 @@ namespace QDLIB {
       
       for (int i=0; i <  size; i++){
          /* treat real & imag seperately */
-         if ( (*this)[i].real() < norm )
+         if ( fabs((*this)[i].real()) < norm )
             (*out)[i]._real = 0;
          else
             (*out)[i]._real = (*this)[i].real();
          
-         if ( (*this)[i].imag() < norm )
+         if ( fabs((*this)[i].imag()) < norm )
             (*out)[i]._imag = 0;
          else
             (*out)[i]._imag = (*this)[i].imag();
-- 
2.43.0


From 69d0a3ac534ad35781f11a7e3dff10ee5dbcc758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 050/101] fix: compressed binary files: room for incompressible
 data

---
 src/tools/FileSingle.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index dc56c4a..c024ca9 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -605,7 +605,10 @@ namespace QDLIB
       if (deflateInit(&strm, 4) != Z_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      /* Incompressible data can become larger */
+      _buffer_size = deflateBound(&strm, data->sizeBytes());
+      if (_buffer != NULL) Memory::Instance().Free(_buffer);
+      _buffer = NULL;
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
@@ -616,8 +619,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(_buffer);
       strm.avail_out = _buffer_size;
 
-      if (deflate(&strm, Z_FINISH) != Z_STREAM_END)
+      if (deflate(&strm, Z_FINISH) != Z_STREAM_END) {
+         deflateEnd(&strm);
          throw (EIOError("zlib deflate failed"));
+      }
 
       /* This is what we have */
       _buffer_size = _buffer_size - strm.avail_out;
@@ -690,7 +695,10 @@ namespace QDLIB
       if (BZ2_bzCompressInit(&strm, 4, 0, 0) != BZ_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      /* Incompressible data can become larger (upper limit from the bzip2 manual) */
+      _buffer_size = data->sizeBytes() + data->sizeBytes() / 100 + 600;
+      if (_buffer != NULL) Memory::Instance().Free(_buffer);
+      _buffer = NULL;
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
@@ -701,8 +709,10 @@ namespace QDLIB
       strm.next_out = _buffer;
       strm.avail_out = _buffer_size;
 
-      if (BZ2_bzCompress(&strm, BZ_FINISH) != BZ_STREAM_END)
+      if (BZ2_bzCompress(&strm, BZ_FINISH) != BZ_STREAM_END) {
+         BZ2_bzCompressEnd(&strm);
          throw (EIOError("bzip2 compress failed"));
+      }
 
       /* This is what we have */
       _buffer_size = _buffer_size - strm.avail_out;
-- 
2.43.0


From 6cd754fb1ee84753a41266bae26371d4e613e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 051/101] fix: raw binary files: size has to agree with the
 meta data

---
 src/tools/FileSingle.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index c024ca9..e1826b9 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -664,15 +664,13 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (inflate(&strm, Z_FINISH) != Z_STREAM_END)
-      { /* Compression */
-         Memory::Instance().Free(buffer);
-         throw(EIOError("zlib decompression failed"));
-      }
+      int state = inflate(&strm, Z_FINISH);
 
       inflateEnd(&strm);
-
       Memory::Instance().Free(buffer);
+
+      if (state != Z_STREAM_END || strm.avail_out != 0)
+         throw(EIOError("zlib decompression failed"));
    }
 #endif
 
@@ -756,15 +754,13 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<char*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (BZ2_bzDecompress(&strm) != BZ_STREAM_END)
-      { /* Compression */
-         Memory::Instance().Free(buffer);
-         throw(EIOError("zlib decompression failed"));
-      }
+      int state = BZ2_bzDecompress(&strm);
 
       BZ2_bzDecompressEnd(&strm);
-
       Memory::Instance().Free(buffer);
+
+      if (state != BZ_STREAM_END || strm.avail_out != 0)
+         throw(EIOError("bzip2 decompression failed"));
    }
 
 #endif
@@ -794,11 +790,12 @@ namespace QDLIB
 
       file.seekg(0, ios::end);
       size_t len = file.tellg();
-      file.seekg(len-ZLIB_MLEN);
-
-      file.read(reinterpret_cast<char*>(lastbytes), ZLIB_MLEN);
+      if (len >= ZLIB_MLEN) {
+         file.seekg(len-ZLIB_MLEN);
+         file.read(reinterpret_cast<char*>(lastbytes), ZLIB_MLEN);
+      }
 
-      if (file.gcount() < ZLIB_MLEN)
+      if (len < ZLIB_MLEN || file.gcount() < ZLIB_MLEN)
          throw (EIOError("Binary file truncated!? Can't check compression tag.", name));
 
       file.close();
-- 
2.43.0


From afd216f6a41da554ae765c64f918db24c70327c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 052/101] fix: stream files: damaged headers and truncated data
 are refused

---
 src/tools/FileSingle.h | 117 ++++++++++++++++++++++++++---------------
 1 file changed, 76 insertions(+), 41 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index e1826b9..cacb634 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -273,6 +273,8 @@ namespace QDLIB
 
 
          void OpenINStream();
+         void CloseINStream();
+         void ReadBlockFromStream(string& buf, uint64_t size);
          void CheckIntroFromStream();
          const FileSingleHeaderPm& ReadMetaFromStream();
 
@@ -1051,6 +1053,44 @@ namespace QDLIB
 
    }
 
+   /**
+    * Close the input stream, if it is our own file.
+    */
+   template<class C>
+   void FileSingle<C>::CloseINStream()
+   {
+      _intro_read = false;
+
+      if (_our_in_stream){
+         delete _sin;
+         _sin = NULL;
+         _our_in_stream = false;
+      }
+   }
+
+   /**
+    * Read size bytes from the input stream.
+    *
+    * The size comes from the stream itself, so don't trust it.
+    */
+   template<class C>
+   void FileSingle<C>::ReadBlockFromStream(string& buf, uint64_t size)
+   {
+      const uint64_t max_chunk = 1 << 20;
+
+      buf.clear();
+      while (buf.size() < size){
+         size_t len = buf.size();
+         size_t chunk = size - len < max_chunk ? size - len : max_chunk;
+
+         buf.resize(len + chunk);
+         _sin->read(&buf[len], chunk);
+
+         if ((size_t) _sin->gcount() != chunk)
+            throw(EIOError("Reading from stream failed. Unexpected end."));
+      }
+   }
+
    /**
     * Check for a correct header.
     */
@@ -1064,9 +1104,10 @@ namespace QDLIB
       /* Check for correct header */
       PbufHeader intro;
 
+      memset(intro.magic, 0, sizeof(intro.magic));
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
 
-      if (string(intro.magic) != PBUF_MAGIC)
+      if ((size_t) _sin->gcount() != sizeof(PbufHeader) || memcmp(intro.magic, PBUF_MAGIC, sizeof(intro.magic)) != 0)
          throw(EIOError("Malformated stream. No stream magic found."));
 
       if ((unsigned int) intro.version != PBUF_VERSION)
@@ -1086,17 +1127,16 @@ namespace QDLIB
       /* message/meta data length */
       _sin->read(reinterpret_cast<char*>(&mlen), sizeof(uint32_t));
 
-      char* buf = new char[mlen];
-      _sin->read(reinterpret_cast<char*>(buf), mlen);
+      if ((size_t) _sin->gcount() != sizeof(uint32_t))
+         throw(EIOError("Reading from stream failed. Unexpected end."));
+
+      string buf;
+      ReadBlockFromStream(buf, mlen);
 
       // Parse header
       MetaData.ClearAll();
-      if (!MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf), mlen)){
-         delete[] buf;
+      if (!MetaData.header.ParseFromString(buf))
          throw(EIOError("Error reading meta data from stream"));
-      }
-
-      delete[] buf;
 
       return MetaData;
    }
@@ -1132,14 +1172,7 @@ namespace QDLIB
          CheckIntroFromStream();
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
-         if (_our_in_stream) {
-            dynamic_cast<ifstream*>(_sin)->close();
-            delete _sin;
-            _sin = NULL;
-         }
-
-         _intro_read = false;
-         _our_in_stream = false;
+         CloseINStream();
 
          _type = binary;
       }
@@ -1152,9 +1185,9 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::ReadDataFromStream(C *data)
    {
-
-
-      if (MetaData.header.payload_size() > 0){
+      try {
+         if (MetaData.header.payload_size() == 0)
+            throw(EIOError("No data found in stream"));
 
          switch(MetaData.header.compression())
          {
@@ -1163,14 +1196,10 @@ namespace QDLIB
                break;
             case FileSingleHeader_Compression_BZIP:
             case FileSingleHeader_Compression_ZLIB:
-               char* inbuf = new char[MetaData.header.payload_size()];
-
-               _sin->read(inbuf, MetaData.header.payload_size());
-
-               if ( (size_t) _sin->gcount() != MetaData.header.payload_size() )
-                  throw(EIOError("Reading from stream failed"));
+               string inbuf;
+               ReadBlockFromStream(inbuf, MetaData.header.payload_size());
 
-               ArrayInputStream arrin(inbuf, MetaData.header.payload_size());
+               ArrayInputStream arrin(inbuf.data(), inbuf.size());
                GzipInputStream gzip(&arrin);
                stringstream outbuf;
 
@@ -1181,25 +1210,21 @@ namespace QDLIB
                   outbuf.write(reinterpret_cast<const char*>(gzbuf), size);
                }
 
+               /* A missing end shows up as missing data */
+               if (gzip.ZlibErrorCode() < 0 && gzip.ZlibErrorCode() != Z_BUF_ERROR)
+                  throw(EIOError("Error decompressing stream"));
+
                outbuf.seekg(0);
                data->DeSerialize(outbuf);
-
-               delete[] inbuf;
                break;
          }
+      } catch (...) { /* Don't leave a half read file behind */
+         CloseINStream();
+         throw;
       }
 
-      if (! MetaData.header.more_files_follow()) {
-         _intro_read = false;
-
-         /* Close */
-         if (_our_in_stream ){
-            dynamic_cast<ifstream*>(_sin)->close(); // We know here that it must be an ifstream.
-            delete _sin;
-            _sin = NULL;
-            _our_in_stream = false;
-         }
-      }
+      if (! MetaData.header.more_files_follow())
+         CloseINStream();
    }
 
 
@@ -1209,8 +1234,13 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::ReadSingleFileFromStream(C *data)
    {
-      CheckIntroFromStream();
-      ReadMetaFromStream();
+      try {
+         CheckIntroFromStream();
+         ReadMetaFromStream();
+      } catch (...) {
+         CloseINStream();
+         throw;
+      }
       ReadDataFromStream(data);
 
       if (_sequence) _counter += _increment;
@@ -1429,8 +1459,13 @@ namespace QDLIB
 
       switch (_type){
          case stream:
+            try {
                CheckIntroFromStream();
                ReadMetaFromStream();
+            } catch (...) {
+               CloseINStream();
+               throw;
+            }
             break;
          case binary:
                ReadMetaFromRaw();
-- 
2.43.0


From e7c3444253b370623ff2b82f1bedc9837743caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 053/101] fix: wave functions, operators and lasers check their
 stream header and data

---
 src/qdlib/GridSystem.cpp       | 20 ++++++++++++++++++++
 src/qdlib/GridSystem.h         |  1 +
 src/qdlib/Laser.cpp            | 11 ++++++++---
 src/qdlib/OGridsystem.cpp      | 21 +++++++++++++++------
 src/qdlib/OHermitianMatrix.cpp | 13 +++++++++----
 src/qdlib/WFGridSystem.cpp     | 20 ++++++++++++++------
 src/qdlib/WFLevel.cpp          |  4 +++-
 7 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index a4c8c20..4b74600 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -69,6 +69,26 @@ namespace QDLIB {
       }
    }
 
+   /**
+    * Check for a non-empty and consistent grid description.
+    *
+    * \param element_size size of a grid point in bytes.
+    */
+   bool GridSystemHeaderPm::Valid(size_t element_size) const
+   {
+      if (header.dims() == 0 || header.dims() > MAX_DIMS || header.dim_size() != (int) header.dims())
+         return false;
+
+      uint64_t size = 1;
+      for (int i=0; i < header.dim_size(); i++){
+         size *= header.dim(i).size();
+         if (size == 0 || size > INT32_MAX)
+            return false;
+      }
+
+      return !header.has_data_size() || header.data_size() == size * element_size;
+   }
+
    GridSystem::GridSystem()
    {
       grid_sys.header.set_dims(0);
diff --git a/src/qdlib/GridSystem.h b/src/qdlib/GridSystem.h
index f9774b2..19e6844 100644
--- a/src/qdlib/GridSystem.h
+++ b/src/qdlib/GridSystem.h
@@ -18,6 +18,7 @@ namespace QDLIB
          GridSystemHeader header;
          void InitFromParamContainer(ParamContainer& pm);
          void DumpParams(ParamContainer& pm);
+         bool Valid(size_t element_size) const;
    };
 
    /**
diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 93f6d29..ffcb91b 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -219,17 +219,20 @@ namespace QDLIB {
 
    void Laser::DeSerialize (std::istream&is)
    {
-      uint64_t size;
+      uint64_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(size));
 
+      if (!is || size > INT32_MAX)
+         throw(EIOError("Can't read laser field: wrong header"));
+
       if (size == 0)
          throw(EParamProblem("Laser field has zero size"));
 
-      double dt;
+      double dt = 0;
       is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
 
-      if (dt <= 0)
+      if (!(dt > 0))
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
       _dt = dt;
@@ -237,6 +240,8 @@ namespace QDLIB {
       newsize(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (!is)
+         throw(EIOError("Can't read laser field: data incomplete"));
    }
    
 }
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 08b7bb7..da9e915 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -78,21 +78,30 @@ namespace QDLIB {
    void OGridSystem::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
+      /* A header takes a few dozen bytes per dimension */
+      if (!is || size == 0 || size > MAX_DIMS * 256)
+         throw(EIOError("Can't read operator from stream: wrong header"));
 
-      delete[] buf;
+      string buf(size, 0);
+      is.read(&buf[0], size);
 
+      GridSystemHeaderPm sys;
+      if (!is || !sys.header.ParseFromString(buf) || !sys.Valid(sizeof(*begin(0))))
+         throw(EIOError("Can't read operator from stream: wrong header"));
+
+      grid_sys = sys;
+
+      // Read data
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (!is)
+         throw(EIOError("Can't read operator from stream: data incomplete"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index a9c994a..b4c468b 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -298,14 +298,19 @@ namespace QDLIB {
    void OHermitianMatrix::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t rows = 0, cols = 0;
 
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      is.read(reinterpret_cast<char*>(&rows), sizeof(uint32_t));
+      is.read(reinterpret_cast<char*>(&cols), sizeof(uint32_t));
 
-      newsize(size, size);
+      if (!is || rows == 0 || rows != cols || uint64_t(rows) * cols > INT32_MAX)
+         throw(EIOError("Can't read OHermitianMatrix: wrong header"));
+
+      newsize(rows, cols);
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
+      if (!is)
+         throw(EIOError("Can't read OHermitianMatrix: data incomplete"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..0ea6b98 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -158,22 +158,30 @@ namespace QDLIB {
    void WFGridSystem::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
+      /* A header takes a few dozen bytes per dimension */
+      if (!is || size == 0 || size > MAX_DIMS * 256)
+         throw(EIOError("Can't read WF from stream: wrong header"));
 
-      delete[] buf;
+      string buf(size, 0);
+      is.read(&buf[0], size);
+
+      GridSystemHeaderPm sys;
+      if (!is || !sys.header.ParseFromString(buf) || !sys.Valid(sizeof(*begin(0))))
+         throw(EIOError("Can't read WF from stream: wrong header"));
+
+      grid_sys = sys;
 
       // Read data
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (!is)
+         throw(EIOError("Can't read WF from stream: data incomplete"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index f680ef8..a0230d6 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -153,12 +153,14 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&sizee), sizeof(sizee));
       is.read(reinterpret_cast<char*>(&sizeb), sizeof(sizeb));
 
-      if (sizee * sizeof(dcomplex) != sizeb)
+      if (!is || sizee == 0 || sizee > INT32_MAX || sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
+      if (!is)
+         throw( EIOError("Can't read WFLevel: data incomplete") );
    }
 } /* namespace QDLIB */
 
-- 
2.43.0


From dfe51351b1443ca1f0bd1e86cea4e9d721ec0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 054/101] fix: multistate wave functions in binary format can
 be read

---
 src/tools/FileSingle.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index cacb634..4cfe20d 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1043,6 +1043,7 @@ namespace QDLIB
          in->open(name.c_str(), ios_base::binary);
 
          if (! in->is_open() ){
+            delete in;
             throw(EIOError("Can not open binary stream file for reading", name));
          }
 
@@ -1166,8 +1167,6 @@ namespace QDLIB
          return;
       }
 
-      OpenINStream();
-
       try {
          CheckIntroFromStream();
          _type = stream;
@@ -1468,8 +1467,17 @@ namespace QDLIB
             }
             break;
          case binary:
+            {
                ReadMetaFromRaw();
-               DetectCompressionInPayload();
+
+               /* A container consists of meta data only */
+               string name;
+               BuildDataFileName(name);
+               if (ifstream(name.c_str()).is_open())
+                  DetectCompressionInPayload();
+               else
+                  MetaData.header.set_compression(FileSingleHeader_Compression_UNCOMPRESSED);
+            }
             break;
          default:
             throw (EIOError("Failed to get meta data (format not determined)."));
-- 
2.43.0


From 4b02addf69684356a04f86b15abd755e15c54352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 055/101] fix: reading wave functions: type and number of
 states are checked, parameters kept, errors leave the file object intact

---
 src/qdlib/FileWF.cpp       | 251 +++++++++++++++++++++----------------
 src/qdlib/FileWF.h         |   3 +
 src/qdlib/WFMultistate.cpp |  10 +-
 3 files changed, 154 insertions(+), 110 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 95dc772..a21def3 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -77,83 +77,104 @@ namespace QDLIB {
     */
    WaveFunction * FileWF::LoadWaveFunctionByMeta()
    {
-      string basename = Name();
-      WaveFunction *wf;
-
-      FileSingleHeaderPm meta = ReadMeta();
-      ParamContainer p = meta.params();
-      string classname = meta.header.class_();
-
-      if (classname.size() <= 1)
-         throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
-
-      if (classname == "WFMultistate"){ /* Explicit Multistate handling */
-         WFMultistate *wfm = new WFMultistate();
-         /** \todo register WF with collector? */
-
-         if (Format() == binary){
-
-            int states;
-            p.GetValue("states", states); /* Grab the states from params. wfm->Init() must be executed after wfm->Add() ! */
-            if (states < 1)
-               throw ( EParamProblem("Init from meta file: Invalid number of states", wfm->States()) );
-
-            int counter = Counter();
-   #ifdef HAVE_MPI
-            int rank =  MPI::COMM_WORLD.Get_rank();
-            int msize = MPI::COMM_WORLD.Get_size();
-   #else
-            int rank = 0; int msize = 1;
-   #endif
-            for (int i=rank; i < states; i +=msize ){/* Loop over states */
-               Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               wfm->Add( LoadWaveFunctionByMeta(), i ); /* Load module */
-            }
-            //cout << "rank : " << rank << endl << *wf<< endl;
-            wfm->SyncStrides();
-            wfm->Init(p);
-         } else if (Format() == stream) { /* Read packed format from stream */
-            ReadDataFromStream(wfm);  // Do a dummy read
-
-            int counter = Counter();
-
-            unsigned int i=0;
-            while (GetMeta().header.more_files_follow()) { /* Try to get all WFs in list */
-               Counter(counter);
-               wfm->Add( LoadWaveFunctionByMeta(), i);
-               i++;
+      const string basename = Name();
+      const int counter = Counter();
+      WaveFunction *wf = NULL;
+      WaveFunction *tmp_data = NULL;
+
+      try {
+         FileSingleHeaderPm meta = ReadMeta();
+         ParamContainer p = meta.params();
+         string classname = meta.header.class_();
+
+         if (classname.size() <= 1)
+            throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
+
+         if (classname == "WFMultistate"){ /* Explicit Multistate handling */
+            WFMultistate *wfm = new WFMultistate();
+            wf = wfm;
+            /** \todo register WF with collector? */
+
+            if (Format() == binary){
+
+               int states;
+               p.GetValue("states", states); /* Grab the states from params. wfm->Init() must be executed after wfm->Add() ! */
+               if (states < 1)
+                  throw ( EParamProblem("Init from meta file: Invalid number of states", states) );
+
+      #ifdef HAVE_MPI
+               int rank =  MPI::COMM_WORLD.Get_rank();
+               int msize = MPI::COMM_WORLD.Get_size();
+      #else
+               int rank = 0; int msize = 1;
+      #endif
+               for (int i=rank; i < states; i +=msize ){/* Loop over states */
+                  Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  AddState(wfm, LoadWaveFunctionByMeta(), i); /* Load module */
+               }
+               //cout << "rank : " << rank << endl << *wf<< endl;
+               wfm->SyncStrides();
+               wfm->Init(p);
+            } else if (Format() == stream) { /* Read packed format from stream */
+               ReadDataFromStream(wfm);  // This tells just the number of states
+
+               int states;
+               wfm->Params().GetValue("states", states);
+
+               for (int i=0; i < states; i++) { /* Get all WFs in list */
+                  if (!GetMeta().header.more_files_follow())
+                     throw ( EIOError("Multistate wave function is incomplete", basename) );
+
+                  Counter(counter);
+                  AddState(wfm, LoadWaveFunctionByMeta(), i);
+               }
+
+               p.SetValue("states", states);
+               wfm->Init(p);
             }
+         } else { /* handling for Single state WFs */
+            wf = ModuleLoader<WaveFunction>::Instance()->Load(classname);
+
+            if (meta.header.compression() != FileSingleHeader_Compression_UNCOMPRESSED){
+               tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
+               ReadData(tmp_data);
+               wf->Restore(tmp_data);
+               DELETE_WF(tmp_data);
+               tmp_data = NULL;
+            } else
+               ReadData(wf);
 
-            wfm->Init(i);
-         }
-
-
-         wf = wfm;
-      } else { /* handling for Single state WFs */
-         wf = ModuleLoader<WaveFunction>::Instance()->Load(classname);
-
-         WaveFunction* tmp_data = wf;
-
-         FileSingleHeader_Compression compress = meta.header.compression();
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
-         }
-
-         ReadData(tmp_data);
-
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            wf->Restore(tmp_data);
-            DELETE_WF(tmp_data);
+            wf->Params() = p;
          }
+      } catch (...) {
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         if (wf != NULL) DELETE_WF(wf);
+         CloseINStream();
+         Name(basename);
+         Counter(counter);
+         throw;
       }
 
       Name(basename); /* We modfied the name => switch back to original */
       return wf;
    }
 
+   /**
+    * Add a freshly loaded state.
+    */
+   void FileWF::AddState(WFMultistate* wfm, WaveFunction* state, int i)
+   {
+      try {
+         wfm->Add(state, i);
+      } catch (...) {
+         DELETE_WF(state);
+         throw;
+      }
+   }
+
    /**
     * Read WF from File.
     *
@@ -165,66 +186,78 @@ namespace QDLIB {
    void FileWF::ReadWaveFunction(WaveFunction * data)
    {
       WFMultistate *wfm;
+      WaveFunction *tmp_data = NULL;
 
       wfm = dynamic_cast<WFMultistate*>(data);
 
-      if (wfm != NULL){ /* Load Multistate set */
-         string basename = Name();
+      if (wfm != NULL && wfm->States() < 1)
+         throw ( EParamProblem("Reading WaveFunction: Invalid number of states", wfm->States()) );
 
-         if (wfm->States() < 1)
-            throw ( EParamProblem("Reading WaveFunction: Invalid number of states", wfm->States()) );
+      const string basename = Name();
+      const int counter = Counter();
 
+      try {
          // Detect format;
-         FileSingleHeaderPm meta;
-         meta = ReadMeta();
-         ParamContainer pmt = meta.params();
+         FileSingleHeaderPm meta = ReadMeta();
+         ParamContainer p = meta.params();
 
-         int counter = Counter();
+         if (meta.header.class_().size() > 0 && meta.header.class_() != data->Name())
+            throw ( EIncompatible("Wave function file is of different type", data->Name(), meta.header.class_()) );
 
-         if (Format() == binary){ /* The old way of storing files. */
-            for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
-               Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               ReadWaveFunction(wfm->State(i)); /* Load data */
-            }
+         if (wfm != NULL){ /* Load Multistate set */
+            if (Format() == binary){ /* The old way of storing files. */
+               int states = 0;
+               if (p.isPresent("states")) p.GetValue("states", states);
+               if (states > 0 && states != wfm->States())
+                  throw ( EIncompatible("Multistate WFs differ in number of states") ) ;
 
-            Name(basename); /* We modified the name => switch back to original */
+               for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
+                  Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  ReadWaveFunction(wfm->State(i)); /* Load data */
+               }
 
-            ParamContainer p = meta.params();
-            wfm->Init(p);
+               Name(basename); /* We modified the name => switch back to original */
 
-         } else if (Format() == stream) { /* Read packed format from stream */
-            ReadDataFromStream(data);  // Do a dummy read
+               wfm->Init(p);
 
-            unsigned int i=0;
-            while (GetMeta().header.more_files_follow()) {
-               Counter(counter);
-               ReadWaveFunction(wfm->State(i));
-               i++;
-            }
+            } else if (Format() == stream) { /* Read packed format from stream */
+               ReadDataFromStream(data);  // Compares just the number of states
 
-            wfm->Init(i);
-         }
+               for (int i=0; i < wfm->States(); i++) {
+                  if (!GetMeta().header.more_files_follow())
+                     throw ( EIOError("Multistate wave function is incomplete", basename) );
 
-         wfm->SyncStrides();
-      } else { /* Load Single WaveFunction */
-         WaveFunction* tmp_data = data;
+                  Counter(counter);
+                  ReadWaveFunction(wfm->State(i));
+               }
 
-         FileSingleHeader_Compression compress = ReadMeta().header.compression();
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            tmp_data = data->NewInstance();
-         }
+               p.SetValue("states", int(wfm->States()));
+               wfm->Init(p);
+            }
 
-         ReadData(tmp_data);
+            wfm->SyncStrides();
+         } else { /* Load Single WaveFunction */
+            if (meta.header.compression() != FileSingleHeader_Compression_UNCOMPRESSED){
+               tmp_data = data->NewInstance();
+               ReadData(tmp_data);
+               data->Restore(tmp_data);
+               DELETE_WF(tmp_data);
+               tmp_data = NULL;
+            } else
+               ReadData(data);
 
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            data->Restore(tmp_data);
-            DELETE_WF(tmp_data);
+            data->Params() = p;
          }
+      } catch (...) {
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         CloseINStream();
+         Name(basename);
+         Counter(counter);
+         throw;
       }
-
    }
 
 
diff --git a/src/qdlib/FileWF.h b/src/qdlib/FileWF.h
index cf4af89..7462a73 100644
--- a/src/qdlib/FileWF.h
+++ b/src/qdlib/FileWF.h
@@ -7,6 +7,7 @@
 
 #include "tools/FileSingle.h"
 #include "qdlib/WaveFunction.h"
+#include "qdlib/WFMultistate.h"
 
 #define FILEWF_COMPRESSION false
 #define FILEWF_COMPRESSION_TOLERANCE 1e-6
@@ -22,6 +23,8 @@ namespace QDLIB {
          int _compLevel;         /* Compression level 0..9; 0 = no compression, 9 = best */
          double _compTolerance;   /* Cut off factor for lossy compression */
 
+         void AddState(WFMultistate* wfm, WaveFunction* state, int i);
+
       public:
          FileWF();
          virtual ~FileWF();
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 62adf2a..4f9cc9d 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -302,9 +302,17 @@ namespace QDLIB
 
    void WFMultistate::DeSerialize (std::istream& is)
    {
-      // The info here is useless right now. Ignore it.
+      // Only the number of states is found here.
       uint32_t states = 0;
       is.read(reinterpret_cast<char*>(&states), sizeof(uint32_t));
+
+      if (!is || states == 0 || states >= QD_MAX_STATES)
+         throw( EIOError("Can't read WFMultistate: wrong header") );
+
+      if (_nstates > 0 && _nstates != (lint) states)
+         throw( EIncompatible("Multistate WFs differ in number of states") ) ;
+
+      _params.SetValue("states", int(states));
    }
 
 }
-- 
2.43.0


From 256364b83ed5a8aac42f53a490ea4073027e89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 056/101] fix: failing file writes are reported and leave the
 file object intact

---
 src/qdlib/FileWF.cpp         | 96 ++++++++++++++++++++----------------
 src/tools/FileSingle.h       | 39 ++++++++-------
 src/tools/ParamContainer.cpp |  4 +-
 3 files changed, 77 insertions(+), 62 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index a21def3..777d962 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -269,64 +269,74 @@ namespace QDLIB {
    void FileWF::WriteWaveFunction(WaveFunction * data, bool more_files_follow)
    {
       WFMultistate *wfm;
+      WaveFunction *tmp_data = NULL;
+      const string basename = Name();
+      const int counter = Counter();
 
       wfm = dynamic_cast<WFMultistate*>(data);
 
-      if (wfm != NULL){ /* Write Multistate set */
-         if (wfm->States() < 1)
-            throw ( EParamProblem("Writing WaveFunction: Invalid number of states", wfm->States()) );
+      try {
+         if (wfm != NULL){ /* Write Multistate set */
+            if (wfm->States() < 1)
+               throw ( EParamProblem("Writing WaveFunction: Invalid number of states", wfm->States()) );
 
-         if (FormatOut() == autodetect)   /* We have to take this decision. */
-            FormatOut(stream);
+            if (FormatOut() == autodetect)   /* We have to take this decision. */
+               FormatOut(stream);
 
-         int counter = Counter();
-         if (FormatOut() == binary) {
-            string basename = Name();
+            if (FormatOut() == binary) {
 
-            for (int i=wfm->MPIrank(); i < wfm->States(); i+=wfm->MPIsize()){
-               Counter(counter);    /* Every WriteFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               WriteWaveFunction(wfm->State(i));
-            }
+               for (int i=wfm->MPIrank(); i < wfm->States(); i+=wfm->MPIsize()){
+                  Counter(counter);    /* Every WriteFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  WriteWaveFunction(wfm->State(i));
+               }
 
-            Name(basename); /* We modfied the name => switch back to original */
+               Name(basename); /* We modfied the name => switch back to original */
 
-            /* Write meta file for Multistate container */
-            if (wfm->MPIrank() == 0){
-               ParamContainer p;
-               p = wfm->Params();
-               p.SetValue("CLASS", wfm->Name() );
-               WriteMeta(p);
-            }
-         } else if (FormatOut() == stream){
+               /* Write meta file for Multistate container */
+               if (wfm->MPIrank() == 0){
+                  ParamContainer p;
+                  p = wfm->Params();
+                  p.SetValue("CLASS", wfm->Name() );
+                  WriteMeta(p);
+               }
+            } else if (FormatOut() == stream){
 
-            WriteMeta(data, true, false); /* This is the Multistate header */
+               WriteMeta(data, true, false); /* This is the Multistate header */
 
-            for (int i=0; i < wfm->States(); i++){
-               Counter(counter);
-               if (i == wfm->States()-1 && more_files_follow == false)
-                  WriteWaveFunction(wfm->State(i), false);
-               else
-                  WriteWaveFunction(wfm->State(i), true);
-            }
+               for (int i=0; i < wfm->States(); i++){
+                  Counter(counter);
+                  if (i == wfm->States()-1 && more_files_follow == false)
+                     WriteWaveFunction(wfm->State(i), false);
+                  else
+                     WriteWaveFunction(wfm->State(i), true);
+               }
 
-         }
-      } else { /* Write single file */
-         WaveFunction* tmp_data = data;
-         if (_compMethod != UNCOMPRESSED) {
+            }
+         } else { /* Write single file */
             if (_compMethod == INVALID)
                throw( EParamProblem("Invalid file compression method given") );
-            else
+
+            if (_compMethod != UNCOMPRESSED) {
                tmp_data = data->Reduce(_compTolerance);
+               tmp_data->Params() = data->Params();
+               WriteMeta(tmp_data, more_files_follow);
+               WriteData(tmp_data);
+               DELETE_WF(tmp_data);
+               tmp_data = NULL;
+            } else {
+               WriteMeta(data, more_files_follow);
+               WriteData(data);
+            }
          }
-
-         WriteMeta(tmp_data, more_files_follow);
-         WriteData(tmp_data);
-
-         if (_compMethod != UNCOMPRESSED)
-            DELETE_WF(tmp_data);
+      } catch (...) {
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         FinalizeOutStream();
+         Name(basename);
+         Counter(counter);
+         throw;
       }
    }
 
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 4cfe20d..f65d137 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -819,7 +819,7 @@ namespace QDLIB
       if (!_drop_meta || _counter != _counter_last) {
 
          if (!p.WriteToFile(_name + METAFILE_SUFFIX))
-            EIOError("Can not write meta file");
+            throw(EIOError("Can not write meta file", _name + METAFILE_SUFFIX));
       }
    }
 
@@ -968,7 +968,8 @@ namespace QDLIB
          out->open(name.c_str(), ios_base::binary);
 
          if (! out->is_open() ){
-            FinalizeOutStream();
+            delete out;
+            _our_out_stream = false;
             throw(EIOError("Can not open binary stream for writing", name));
          }
          _sout = out;
@@ -989,6 +990,10 @@ namespace QDLIB
    void FileSingle<C>::WriteDataToStream(const string &data_buf)
    {
       _sout->write(reinterpret_cast<const char*>(data_buf.data()), data_buf.size());
+      _sout->flush();
+
+      if (_sout->fail())
+         throw(EIOError("Can't write data to stream"));
    }
 
    /**
@@ -1019,12 +1024,17 @@ namespace QDLIB
       stringstream payload;
       PrepareStreamPayload(data, payload);
 
-      // put payload size in header and write header to stream
-      WriteMetaToStream(data, payload.str().size());
+      try {
+         // put payload size in header and write header to stream
+         WriteMetaToStream(data, payload.str().size());
 
-      // write payload to stream
-      const string& s = payload.str();
-      WriteDataToStream( s );
+         // write payload to stream
+         const string& s = payload.str();
+         WriteDataToStream( s );
+      } catch (...) {
+         FinalizeOutStream();
+         throw;
+      }
       FinalizeOutStream();      // close stream
       if (_sequence) _counter += _increment;
    }
@@ -1346,7 +1356,8 @@ namespace QDLIB
       MetaData.header.set_class_(data->Name());
 
       pm.SetValue("CLASS", data->Name());
-      pm.WriteToFile(_name + METAFILE_SUFFIX);
+      if (!pm.WriteToFile(_name + METAFILE_SUFFIX))
+         throw(EIOError("Can not write meta file", _name + METAFILE_SUFFIX));
    }
 
    /**
@@ -1366,14 +1377,12 @@ namespace QDLIB
          throw(EIOError("Can not open binary file for writing", name));
 
       file.write((char*) _buffer, _buffer_size);
-      if (file.bad())
-         throw(EIOError("Can not write binary file", name));
 
       Memory::Instance().Free(_buffer);
       _buffer = NULL;
       _buffer_size  = 0;
 
-      if (file.bad())
+      if (file.fail())
          throw(EIOError("Can not write binary file", name));
 
       string magic;
@@ -1382,23 +1391,19 @@ namespace QDLIB
             /* Append magic bytes */
             magic = ZLIB_MAGIC;
             file.write((char*) magic.c_str(), magic.size()+1);
-            if (file.bad())
-               throw(EIOError("Can not write binary file", name));
-
             break;
          case BZIP:
             /* Append magic bytes */
             magic = BZIP_MAGIC;
             file.write((char*) magic.c_str(), magic.size()+1);
-            if (file.bad())
-               throw(EIOError("Can not write binary file", name));
-
             break;
          default:
             break;
       }
 
       file.close();
+      if (file.fail())
+         throw(EIOError("Can not write binary file", name));
    }
 
    /**
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 554ce77..3e46a86 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -866,12 +866,12 @@ namespace QDLIB {
       ofstream file;
 
       file.open(name.c_str(),  ios_base::out);
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       Write(file, with_types);
 
       file.close();
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       return true;
    }
-- 
2.43.0


From a3489af460110db42a4a4bcebb3a8cee456deb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 057/101] fix: copies of grid wave functions keep the
 parameters

---
 src/qdlib/WFGridCartesian.cpp | 2 ++
 src/qdlib/WFGridSystem.cpp    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index 6ca7e29..92e841f 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -16,6 +16,8 @@ namespace QDLIB {
    WaveFunction* WFGridCartesian::NewInstance()
    {
       WFGridCartesian* p = new WFGridCartesian(static_cast<GridSystem&>(*this));
+      p->_params = _params;
+      p->grid_sys.DumpParams(p->_params);
       return p;
    }
 	 
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 0ea6b98..a85154f 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -71,6 +71,7 @@ namespace QDLIB {
       IsKspace(G->IsKspace());
       *((GridSystem*) this) = *((GridSystem*) G);
       *((cVec*) this) = *((cVec*) G);
+      _params = G->_params;
    }
 
    void WFGridSystem::Reaquire()
-- 
2.43.0


From c5800a70654358a0b836bbcab92c0fcad3a334b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 058/101] fix: a state of a multistate file is never read as
 the whole again

---
 src/qdlib/FileWF.cpp | 10 +++++++---
 src/qdlib/FileWF.h   |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 777d962..311cc0c 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -75,7 +75,7 @@ namespace QDLIB {
     * Reads also the full data from files.
     * This method works recursive for Multistate WFs.
     */
-   WaveFunction * FileWF::LoadWaveFunctionByMeta()
+   WaveFunction * FileWF::LoadWaveFunctionByMeta(bool is_state)
    {
       const string basename = Name();
       const int counter = Counter();
@@ -91,6 +91,10 @@ namespace QDLIB {
             throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
 
          if (classname == "WFMultistate"){ /* Explicit Multistate handling */
+            /* The meta file of a missing state may be the one of the whole */
+            if (is_state)
+               throw ( EIOError("Multistate wave function is incomplete", basename) );
+
             WFMultistate *wfm = new WFMultistate();
             wf = wfm;
             /** \todo register WF with collector? */
@@ -113,7 +117,7 @@ namespace QDLIB {
                   stringstream ss;
                   ss << "-" << i;
                   Name(basename + ss.str());
-                  AddState(wfm, LoadWaveFunctionByMeta(), i); /* Load module */
+                  AddState(wfm, LoadWaveFunctionByMeta(true), i); /* Load module */
                }
                //cout << "rank : " << rank << endl << *wf<< endl;
                wfm->SyncStrides();
@@ -129,7 +133,7 @@ namespace QDLIB {
                      throw ( EIOError("Multistate wave function is incomplete", basename) );
 
                   Counter(counter);
-                  AddState(wfm, LoadWaveFunctionByMeta(), i);
+                  AddState(wfm, LoadWaveFunctionByMeta(true), i);
                }
 
                p.SetValue("states", states);
diff --git a/src/qdlib/FileWF.h b/src/qdlib/FileWF.h
index 7462a73..2e85131 100644
--- a/src/qdlib/FileWF.h
+++ b/src/qdlib/FileWF.h
@@ -24,11 +24,12 @@ namespace QDLIB {
          double _compTolerance;   /* Cut off factor for lossy compression */
 
          void AddState(WFMultistate* wfm, WaveFunction* state, int i);
+         WaveFunction* LoadWaveFunctionByMeta(bool is_state);
 
       public:
          FileWF();
          virtual ~FileWF();
-         WaveFunction* LoadWaveFunctionByMeta();
+         WaveFunction* LoadWaveFunctionByMeta() { return LoadWaveFunctionByMeta(false); }
          virtual void ReadWaveFunction (WaveFunction *data);
          virtual void WriteWaveFunction (WaveFunction *data, bool more_files_follow = false);
          
-- 
2.43.0


From 423dbe02289f711356d3c9492caea8bf6ac428c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 059/101] fix: incomplete grid descriptions are refused

---
 src/qdlib/GridSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index 4b74600..fb87a41 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -51,7 +51,11 @@ namespace QDLIB {
 
          i++;
          sprintf(c, "%d", i);
+         s = string("N") + string(c);
       }
+
+      if (!Valid(sizeof(double)))
+         throw(EParamProblem("Incomplete grid description", dims));
    }
 
    void GridSystemHeaderPm::DumpParams(ParamContainer& pm)
-- 
2.43.0


From a9caef28cc21f53f66769b493707a1dc9e30e579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 060/101] fix: stream data has to be as long as its header says

---
 src/tools/FileSingle.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index f65d137..82122c9 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1198,19 +1198,20 @@ namespace QDLIB
          if (MetaData.header.payload_size() == 0)
             throw(EIOError("No data found in stream"));
 
+         string inbuf;
+         ReadBlockFromStream(inbuf, MetaData.header.payload_size());
+
+         stringstream outbuf;
+
          switch(MetaData.header.compression())
          {
             case FileSingleHeader_Compression_UNCOMPRESSED:
-               data->DeSerialize(*_sin);
+               outbuf.str(inbuf);
                break;
             case FileSingleHeader_Compression_BZIP:
             case FileSingleHeader_Compression_ZLIB:
-               string inbuf;
-               ReadBlockFromStream(inbuf, MetaData.header.payload_size());
-
                ArrayInputStream arrin(inbuf.data(), inbuf.size());
                GzipInputStream gzip(&arrin);
-               stringstream outbuf;
 
                const void* gzbuf;
                int size;
@@ -1223,10 +1224,14 @@ namespace QDLIB
                if (gzip.ZlibErrorCode() < 0 && gzip.ZlibErrorCode() != Z_BUF_ERROR)
                   throw(EIOError("Error decompressing stream"));
 
-               outbuf.seekg(0);
-               data->DeSerialize(outbuf);
                break;
          }
+
+         outbuf.seekg(0);
+         data->DeSerialize(outbuf);
+
+         if (outbuf.peek() != EOF)
+            throw(EIOError("Size of the data in stream doesn't agree"));
       } catch (...) { /* Don't leave a half read file behind */
          CloseINStream();
          throw;
-- 
2.43.0


From ec97dd48ae2b744aced03432b7c6fee71ad71643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 061/101] fix: a read closes its own stream whatever the header
 announces

---
 src/qdlib/FileWF.cpp   | 6 ++++++
 src/tools/FileSingle.h | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 311cc0c..8b190a0 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -79,6 +79,7 @@ namespace QDLIB {
    {
       const string basename = Name();
       const int counter = Counter();
+      const bool opens_stream = !InputStreamOpen();
       WaveFunction *wf = NULL;
       WaveFunction *tmp_data = NULL;
 
@@ -162,6 +163,8 @@ namespace QDLIB {
          throw;
       }
 
+      if (opens_stream) CloseINStream(); /* Whatever the header says about further files */
+
       Name(basename); /* We modfied the name => switch back to original */
       return wf;
    }
@@ -199,6 +202,7 @@ namespace QDLIB {
 
       const string basename = Name();
       const int counter = Counter();
+      const bool opens_stream = !InputStreamOpen();
 
       try {
          // Detect format;
@@ -255,6 +259,8 @@ namespace QDLIB {
 
             data->Params() = p;
          }
+
+         if (opens_stream) CloseINStream(); /* Whatever the header says about further files */
       } catch (...) {
          if (tmp_data != NULL) DELETE_WF(tmp_data);
          CloseINStream();
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 82122c9..96eaac2 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -274,6 +274,7 @@ namespace QDLIB
 
          void OpenINStream();
          void CloseINStream();
+         bool InputStreamOpen() const { return _sin != NULL; }
          void ReadBlockFromStream(string& buf, uint64_t size);
          void CheckIntroFromStream();
          const FileSingleHeaderPm& ReadMetaFromStream();
-- 
2.43.0


From 0565aa311200385e0d430d135d36c36d3b956acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 062/101] fix: a failing interactive command is answered once
 and leaves nothing behind

---
 src/CmdHandler.cpp   | 496 +++++++++++++++++++++++--------------------
 src/CmdHandler.h     |   7 +-
 src/GlobalOpList.cpp |  35 ++-
 src/GlobalOpList.h   |   7 +-
 4 files changed, 314 insertions(+), 231 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 8580ad2..3e0b2a4 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -240,7 +240,7 @@ namespace QDLIB
    /**
     * Initialize interactive mode with given I/O streams to exchange commands.
     */
-   CmdHandler::CmdHandler(istream& in, ostream& out) : fifo_(NULL), sin_(&in), sout_(&out)
+   CmdHandler::CmdHandler(istream& in, ostream& out) : fifo_(NULL), sin_(&in), sout_(&out), sync_lost_(false)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -251,7 +251,7 @@ namespace QDLIB
    /**
     * Initialize interactive mdoe with base name for FIFO file.
     */
-   CmdHandler::CmdHandler(const string& file) : buffer(NULL)
+   CmdHandler::CmdHandler(const string& file) : sync_lost_(false)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -263,7 +263,7 @@ namespace QDLIB
       sout_ = fifo_->GetSendStream();
    }
 
-   CmdHandler::CmdHandler() : buffer(NULL), fifo_(NULL), sin_(NULL), sout_(NULL)
+   CmdHandler::CmdHandler() : fifo_(NULL), sin_(NULL), sout_(NULL), sync_lost_(false)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -274,14 +274,17 @@ namespace QDLIB
    CmdHandler::~CmdHandler()
    {
       if (fifo_ != NULL) delete fifo_;
-      if (buffer != NULL) delete[] buffer;
    }
 
 
    Operator* CmdHandler::get_operator_from_command(Command& cmd)
    {
-      try {
-         if (cmd.has_xml()) { // load by XML definition
+      GlobalOpList& gol = GlobalOpList::Instance();
+
+      if (cmd.has_xml()) { // load by XML definition
+         const set<string> keys = gol.Keys();
+
+         try {
             XmlParser XMLfile;
             Operator* op;
 
@@ -294,57 +297,48 @@ namespace QDLIB
                throw(EIncompatible("Operator load from command failed"));
 
             return op;
-         } else if (cmd.has_param_s1()) { // get it from reference
-            GlobalOpList& gol = GlobalOpList::Instance();
-            Operator* op = gol[cmd.param_s1()];
-
-            if (op == NULL)
-               throw(EIncompatible("Operator load from command by reference failed"));
-
-            return op;
-         } else {
-            throw (EParamProblem("Can't load operator, neither XML nor reference is given."));
+         } catch (...) {
+            gol.Restore(keys); // Don't keep parts of a failed definition
+            throw;
          }
-
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
+      } else if (cmd.has_param_s1()) { // get it from reference
+         return gol[cmd.param_s1()];
       }
 
-      return NULL;
+      throw (EParamProblem("Can't load operator, neither XML nor reference is given."));
    }
 
    /**
-    * Get a wf from stream.
+    * Get a wf from the com stream.
     *
-    * Shortcut with error response message.
+    * If that fails, we don't know where the next command starts.
     */
-   WaveFunction* CmdHandler::get_wf(FileWF& file)
+   WaveFunction* CmdHandler::get_wf_from_stream(FileWF& file)
    {
-      WaveFunction* wf = NULL;
-
-      try {
-         wf = file.LoadWaveFunctionByMeta();
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-      }
+      sync_lost_ = true;
+      WaveFunction* wf = file.LoadWaveFunctionByMeta();
+      sync_lost_ = false;
 
       return wf;
    }
 
    /**
     * put a wf the the com stream.
-    *
-    * Shortcut with error response message.
     */
    void CmdHandler::put_wf_to_stream(FileWF& file, WaveFunction* wf)
    {
-      try {
-         file.WriteWaveFunction(wf);
-         sout_->flush();
-      }  catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw (e);
-      }
+      file.WriteWaveFunction(wf);
+      sout_->flush();
+   }
+
+   /**
+    * Initialize the operator for the wf, if necessary.
+    */
+   void CmdHandler::init_operator(Operator* op, WaveFunction* wf)
+   {
+      if (!op->Valid(wf)) op->Init(wf);
+      if (!op->Valid(wf))
+         throw(EIncompatible("Operator initialized with incompatible wfs"));
    }
 
    void CmdHandler::cmd_run_prog(Command& cmd, const string& dir)
@@ -354,12 +348,7 @@ namespace QDLIB
          return;
       }
 
-      try {
-         RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw (e);
-      }
+      RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
 
       send_OK(false);
    }
@@ -379,7 +368,7 @@ namespace QDLIB
       // Load WF;
       file.Name(cmd.param_s1());
 
-      WaveFunction* wf = get_wf(file);
+      WaveFunction* wf = file.LoadWaveFunctionByMeta();
 
       // Write to stream
       file.Compress(false);
@@ -391,7 +380,12 @@ namespace QDLIB
       // be detected by the file header
       // In case of an error a message is sent: msg_len, Response.
 
-      put_wf_to_stream(file, wf);
+      try {
+         put_wf_to_stream(file, wf);
+      } catch (...) {
+         DELETE_WF(wf);
+         throw;
+      }
 
       DELETE_WF(wf);
    }
@@ -411,8 +405,7 @@ namespace QDLIB
       // Read from Stream;
       file.SetInputStream(*sin_);
 
-      WaveFunction* wf = get_wf(file);
-      if (wf == NULL) return;
+      WaveFunction* wf = get_wf_from_stream(file);
 
       // Set compression
       if (cmd.has_param_s2()){
@@ -425,9 +418,9 @@ namespace QDLIB
          file.Name(cmd.param_s1());
          file.Format(FileSingle<WaveFunction>::stream);
          file.WriteWaveFunction(wf);
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw (e);
+      } catch (...) {
+         DELETE_WF(wf);
+         throw;
       }
 
       send_OK(false);
@@ -457,8 +450,11 @@ namespace QDLIB
 
       Serializiable* ser = dynamic_cast<Serializiable*>(op);
 
-      if (ser == NULL)
-         throw(EIncompatible("Not a serializable object", op->Name()));
+      if (ser == NULL) {
+         const string name(op->Name());
+         DELETE_OP(op);
+         throw(EIncompatible("Not a serializable object", name));
+      }
 
       // Read Operator from file
       FileSingle<Serializiable> file;
@@ -467,21 +463,16 @@ namespace QDLIB
 
       try {
          file.ReadSingleFileFromStream(ser);
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw(e);
-      }
 
-      file.Compression(FileSingle<Serializiable>::UNCOMPRESSED);
-      file.SetOutputStream(*sout_);
+         file.Compression(FileSingle<Serializiable>::UNCOMPRESSED);
+         file.SetOutputStream(*sout_);
 
-      // Write operator to stream
-      try {
+         // Write operator to stream
          file.WriteSingleFileToStream(ser);
          sout_->flush();
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw(e);
+      } catch (...) {
+         DELETE_OP(op);
+         throw;
       }
 
       DELETE_OP(op);
@@ -522,8 +513,11 @@ namespace QDLIB
 
          ser = dynamic_cast<Serializiable*>(op);
 
-         if (ser == NULL)
-            throw(EIncompatible("Not a serializable object", op->Name()));
+         if (ser == NULL) {
+            const string name(op->Name());
+            DELETE_OP(op);
+            throw(EIncompatible("Not a serializable object", name));
+         }
       }
 
       send_OK(false);
@@ -534,34 +528,34 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       try {
+         sync_lost_ = true;
          file.ReadSingleFileFromStream(ser);
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw (e);
-      }
+         sync_lost_ = false;
 
-      // Set compression
-      if (cmd.has_param_s3()){
-         if (cmd.param_s3() == "gzip")
-            file.Compression(FileSingle<Serializiable>::ZLIB);
-      }
+         // Set compression
+         if (cmd.has_param_s3()){
+            if (cmd.param_s3() == "gzip")
+               file.Compression(FileSingle<Serializiable>::ZLIB);
+         }
 
-      // Write to file
-      try {
+         // Write to file
          file.Name(cmd.param_s1() + BINARY_O_SUFFIX);
          file.Format(FileSingle<Serializiable>::stream);
          file.WriteSingleFileToStream(ser);
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw (e);
+      } catch (...) {
+         if (op != NULL)
+            DELETE_OP(op);
+         else
+            delete laser;
+         throw;
       }
 
-      send_OK(false);
-
       if (op != NULL)
          DELETE_OP(op);
       else
          delete laser;
+
+      send_OK(false);
    }
 
    void CmdHandler::cmd_set_global_params(Command& cmd)
@@ -570,6 +564,7 @@ namespace QDLIB
 
       if (!cmd.has_param_s1()){
          send_error_message("SET_GLOBAL_PARAMS is missing key/values");
+         return;
       }
 
       ParamContainer pm;
@@ -578,9 +573,6 @@ namespace QDLIB
       ParamContainer& gp = GlobalParams::Instance();
       gp += pm;  // Add to paraemters
 
-      string s;
-      gp.Write(s, false);
-
       send_OK(false);
    }
 
@@ -592,6 +584,8 @@ namespace QDLIB
       gp.Write(s, false);
 
       Response resp;
+      resp.set_response(Response_response_t_OK);
+      resp.set_data_follows(false);
       resp.set_msg(s);
 
       send_response(resp);
@@ -602,15 +596,17 @@ namespace QDLIB
     */
    void CmdHandler::cmd_clear_objects()
    {
-      GlobalOpList::Instance().Clear();
+      GlobalOpList::Instance().Clear(true);
       Collector<QDClock>::Instance()->Delete();
       send_OK(false);
    }
 
    void CmdHandler::cmd_load_op(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()) {
          send_error_message("LOAD_OP is missing a XML operator definition");
+         return;
+      }
 
       get_operator_from_command(cmd);
 
@@ -619,36 +615,38 @@ namespace QDLIB
 
    void CmdHandler::cmd_load_U(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()) {
          send_error_message("LOAD_U is missing a XML operator definition");
+         return;
+      }
 
-      if (!cmd.has_param_d1())
+      if (!cmd.has_param_d1()) {
          send_error_message("LOAD_U is missing a time step");
+         return;
+      }
 
-      if (!cmd.has_param_d2())
+      if (!cmd.has_param_d2()) {
          send_error_message("LOAD_U is missing  Nt");
+         return;
+      }
 
-      try {
-          XmlParser XMLfile;
-          OPropagator* U;
-
-          XMLfile.Parse(cmd.xml().c_str(), cmd.xml().size());
-
-          XmlNode& root = XMLfile.Root();
-          U = ChainLoader::LoadPropagator(&root, true);
-          if (U == NULL)
-             throw(EIncompatible("Propagator load from command failed"));
-
-          // Keep track of the clock for later deletion.
-          QDClock* cl = new QDClock(int(cmd.param_d2()), cmd.param_d1());
-          Collector<QDClock>::Instance()->Register(cl, false);
-
-          U->Clock( cl );
+      GlobalOpList& gol = GlobalOpList::Instance();
+      const set<string> keys = gol.Keys();
 
-       } catch (Exception& e) {
-          send_error_message(e.GetMessage());
-          throw (e);
-       }
+      try {
+         OPropagator* U = dynamic_cast<OPropagator*>(get_operator_from_command(cmd));
+         if (U == NULL)
+            throw(EIncompatible("Propagator load from command failed"));
+
+         // Keep track of the clock for later deletion.
+         QDClock* cl = new QDClock(int(cmd.param_d2()), cmd.param_d1());
+         Collector<QDClock>::Instance()->Register(cl, false);
+
+         U->Clock( cl );
+      } catch (...) {
+         gol.Restore(keys); // Don't keep parts of a failed definition
+         throw;
+      }
 
       send_OK(false);
    }
@@ -661,18 +659,13 @@ namespace QDLIB
       // Chose time step
       if (cmd.has_param_d1()){
          QDClock* cl = Op->Clock();
-         if (cl == NULL) {
-            string err = "Operator has no clock";
-            send_error_message(err);
-            return;
-         }
+         if (cl == NULL)
+            throw(EParamProblem("Operator has no clock"));
 
          int t = int(cmd.param_d1());
-         if (t < 0 || t > cl->Steps()){
-            string err = "Invalid time value chosen";
-            send_error_message(err);
-            return;
-         }
+         if (t < 0 || t > cl->Steps())
+            throw(EParamProblem("Invalid time value chosen"));
+
          cl->TimeStep(t);
       }
 
@@ -683,61 +676,58 @@ namespace QDLIB
 
       file.SetInputStream(*sin_);
 
-      WaveFunction* wf = get_wf(file);
+      WaveFunction* wf = get_wf_from_stream(file);
 
       // Send Response
       try {
-         if (!Op->Valid(wf)) Op->Init(wf);
-         if (!Op->Valid(wf)) {
-            send_error_message("Operator initialized with incompatible wfs");
-            return;
-         }
+         init_operator(Op, wf);
          Op->Apply(wf);
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw(e);
-      }
 
-      // Send back WF
-      file.SetOutputStream(*sout_);
-      put_wf_to_stream(file, wf);
+         // Send back WF
+         file.SetOutputStream(*sout_);
+         put_wf_to_stream(file, wf);
+      } catch (...) {
+         DELETE_WF(wf);
+         throw;
+      }
 
       DELETE_WF(wf);
    }
 
    void CmdHandler::cmd_get_matel(Command& cmd)
    {
-      // Load Operator
-      Operator* Op = get_operator_from_command(cmd);
-
-      // Get bra and ket
+      // Get bra and ket, they follow the command without further notice
       FileWF file;
       file.SetInputStream(*sin_);
 
-      WaveFunction* bra = get_wf(file);
-      WaveFunction* ket = get_wf(file);
+      WaveFunction* bra = get_wf_from_stream(file);
+      WaveFunction* ket = NULL;
 
       // Send Response
       try {
-         if (!Op->Valid(bra)) Op->Init(bra);
-         if (!Op->Valid(bra) || !Op->Valid(ket)) {
-            send_error_message("Operator initialized with incompatible wfs");
-            return;
-         }
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
-         throw(e);
+         ket = get_wf_from_stream(file);
+
+         // Load Operator
+         Operator* Op = get_operator_from_command(cmd);
+
+         init_operator(Op, bra);
+         init_operator(Op, ket);
+
+         // Send response
+         dcomplex res = Op->MatrixElement(bra, ket);
+
+         Response resp;
+         resp.set_response(Response_response_t_OK);
+         resp.set_data_follows(false);
+         resp.add_result(res.real());
+         resp.add_result(res.imag());
+         send_response(resp);
+      } catch (...) {
+         DELETE_WF(bra);
+         if (ket != NULL) DELETE_WF(ket);
+         throw;
       }
 
-      // Send response
-      dcomplex res = Op->MatrixElement(bra, ket);
-
-      Response resp;
-      resp.set_response(Response_response_t_OK);
-      resp.add_result(res.real());
-      resp.add_result(res.imag());
-      send_response(resp);
-
       DELETE_WF(bra);
       DELETE_WF(ket);
    }
@@ -753,24 +743,25 @@ namespace QDLIB
       FileWF file;
       file.SetInputStream(*sin_);
 
-      WaveFunction* bk = get_wf(file);
+      WaveFunction* bk = get_wf_from_stream(file);
 
       // Send Response
       try {
-         if (!Op->Valid(bk)) Op->Init(bk);
-         if (!Op->Valid(bk)) {
-            send_error_message("Operator initialized with incompatible wfs");
-            return;
-         }
-      } catch (Exception& e) {
-         send_error_message(e.GetMessage());
+         init_operator(Op, bk);
+
+         double res = Op->Expec(bk);
+
+         Response resp;
+         resp.set_response(Response_response_t_OK);
+         resp.set_data_follows(false);
+         resp.add_result(res);
+         send_response(resp);
+      } catch (...) {
+         DELETE_WF(bk);
+         throw;
       }
 
-      double res = Op->Expec(bk);
-      Response resp;
-      resp.set_response(Response_response_t_OK);
-      resp.add_result(res);
-      send_response(resp);
+      DELETE_WF(bk);
    }
 
    /**
@@ -784,80 +775,133 @@ namespace QDLIB
 
       uint32_t msg_size;
       Command cmd;
-      Response resp;
+      bool quit = false;
 
       do { /* command loop */
          log.coutdbg() << "Waiting for input.." << endl;
          log.flush();
          sin_->read(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
-         log.coutdbg() << "msg_size: " << msg_size << endl;
 
-         buffer = new char[msg_size];
-         sin_->read(reinterpret_cast<char*>(buffer), msg_size);
+         if (sin_->gcount() == 0) {
+            log.coutdbg() << "End of input" << endl;
+            log.flush();
+            break;
+         }
+
+         if ((size_t) sin_->gcount() != sizeof(msg_size))
+            throw (EIOError("Unexpected end of the command stream"));
 
-         if ( !cmd.ParseFromArray(buffer, msg_size) )
-            throw (EParamProblem("Parsing the command from input failed"));
+         log.coutdbg() << "msg_size: " << msg_size << endl;
+
+         if ( !read_message(cmd, msg_size) ) {
+            send_error_message("Parsing the command from input failed");
+            continue;
+         }
 
          log.cout() << "cmd_type: "
                   << cmd.command_t_descriptor()->FindValueByNumber(cmd.cmd())->name() << endl;
 
          log.flush();
 
-         delete[] buffer; buffer = NULL;
-
-         switch (cmd.cmd()){
-            case Command_command_t_RUN_PROG:
-               cmd_run_prog(cmd, dir);
-               break;
-            case Command_command_t_READ_WF:
-               cmd_read_wf(cmd);
-               break;
-            case Command_command_t_WRITE_WF:
-               cmd_write_wf(cmd);
-               break;
-            case Command_command_t_GET_GLOBAL_PARAMS:
-               cmd_get_global_params(cmd);
-               break;
-            case Command_command_t_SET_GLOBAL_PARAMS:
-               cmd_set_global_params(cmd);
-               break;
-            case Command_command_t_CLEAR_OBJECTS:
-               cmd_clear_objects();
-               break;
-            case Command_command_t_LOAD_OP:
-               cmd_load_op(cmd);
-               break;
-            case Command_command_t_LOAD_U:
-               cmd_load_U(cmd);
-               break;
-            case Command_command_t_READ_OP:
-               cmd_read_op(cmd);
-               break;
-            case Command_command_t_WRITE_OP:
-               cmd_write_op(cmd);
-               break;
-            case Command_command_t_QUIT:
-               log.coutdbg() << "Received QUIT" << endl;
-               log.flush();
-               break;
-            case Command_command_t_GET_EXPEC:
-               cmd_get_expec(cmd);
-               break;
-            case Command_command_t_GET_MATEL:
-               cmd_get_matel(cmd);
-               break;
-            case Command_command_t_APPLY_OP:
-               cmd_apply_op(cmd);
-               break;
-            default:
-               throw(EParamProblem("Unknown command code: ", cmd.cmd()));
-            break;
+         try {
+            quit = run_command(cmd, dir);
+         } catch (Exception& e) {
+            /* Everything that goes wrong is reported, but we are ready for the next command */
+            send_error_message(e.GetMessage());
+
+            if (sync_lost_)
+               throw;
          }
 
          log.cout() << "completed\n";
          log.flush();
-      } while  (cmd.cmd() != Command_command_t_QUIT);
+      } while  (!quit);
+
+   }
+
+   /**
+    * Read and parse a command message.
+    *
+    * The size comes from the stream itself, so don't trust it.
+    */
+   bool CmdHandler::read_message(Command& cmd, uint32_t size)
+   {
+      const uint32_t max_chunk = 1 << 20;
+      string buf;
+
+      while (buf.size() < size) {
+         size_t len = buf.size();
+         size_t chunk = size - len < max_chunk ? size - len : max_chunk;
+
+         buf.resize(len + chunk);
+         sin_->read(&buf[len], chunk);
+
+         if ((size_t) sin_->gcount() != chunk)
+            throw (EIOError("Unexpected end of the command stream"));
+      }
+
+      return cmd.ParseFromString(buf);
+   }
+
+   /**
+    * Run a single command.
+    *
+    * \return true if the session ends
+    */
+   bool CmdHandler::run_command(Command& cmd, const string& dir)
+   {
+      Logger& log = Logger::InstanceRef();
+
+      switch (cmd.cmd()){
+         case Command_command_t_RUN_PROG:
+            cmd_run_prog(cmd, dir);
+            break;
+         case Command_command_t_READ_WF:
+            cmd_read_wf(cmd);
+            break;
+         case Command_command_t_WRITE_WF:
+            cmd_write_wf(cmd);
+            break;
+         case Command_command_t_GET_GLOBAL_PARAMS:
+            cmd_get_global_params(cmd);
+            break;
+         case Command_command_t_SET_GLOBAL_PARAMS:
+            cmd_set_global_params(cmd);
+            break;
+         case Command_command_t_CLEAR_OBJECTS:
+            cmd_clear_objects();
+            break;
+         case Command_command_t_LOAD_OP:
+            cmd_load_op(cmd);
+            break;
+         case Command_command_t_LOAD_U:
+            cmd_load_U(cmd);
+            break;
+         case Command_command_t_READ_OP:
+            cmd_read_op(cmd);
+            break;
+         case Command_command_t_WRITE_OP:
+            cmd_write_op(cmd);
+            break;
+         case Command_command_t_QUIT:
+            log.coutdbg() << "Received QUIT" << endl;
+            log.flush();
+            break;
+         case Command_command_t_GET_EXPEC:
+            cmd_get_expec(cmd);
+            break;
+         case Command_command_t_GET_MATEL:
+            cmd_get_matel(cmd);
+            break;
+         case Command_command_t_APPLY_OP:
+            cmd_apply_op(cmd);
+            break;
+         default:
+            throw(EParamProblem("Unknown command code: ", cmd.cmd()));
+         break;
+      }
 
+      return cmd.cmd() == Command_command_t_QUIT;
    }
 
 } /* namespace QDLIB */
diff --git a/src/CmdHandler.h b/src/CmdHandler.h
index f634308..e0688ea 100644
--- a/src/CmdHandler.h
+++ b/src/CmdHandler.h
@@ -33,16 +33,19 @@ namespace QDLIB
          static void RunXML(const char* buf, size_t size, const string& dir);
 
       private:
-         char* buffer;
          FIFO* fifo_;
          istream* sin_;
          ostream* sout_;
+         bool sync_lost_;   /* The data on the input stream couldn't be understood */
 
          void SendBinary();
          void RecvBinary();
 
          Operator* get_operator_from_command(Command& cmd);
-         WaveFunction* get_wf(FileWF& file);
+         WaveFunction* get_wf_from_stream(FileWF& file);
+         void init_operator(Operator* op, WaveFunction* wf);
+         bool read_message(Command& cmd, uint32_t size);
+         bool run_command(Command& cmd, const string& dir);
          void put_wf_to_stream(FileWF& file, WaveFunction* wf);
 
          void send_response(Response& resp);
diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 1b26364..53472c4 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -208,14 +208,16 @@ namespace QDLIB {
 
    /**
     * Clear the Operators in the storage, but leave persistent Ops untouched.
+    *
+    * \param all Remove also the persistent operators.
     */
-   void QDLIB::GlobalOpList::Clear()
+   void QDLIB::GlobalOpList::Clear(bool all)
    {
       map<string, _OpEntry>::iterator it;
 
       it = _OpStore.begin();
       while ( it != _OpStore.end() ) {
-         if ( ! ((*it).second).persist ) {
+         if ( all || ! ((*it).second).persist ) {
             DELETE_OP(((*it).second).Op);
             _OpStore.erase(it);
             it = _OpStore.begin(); /* iterator is now invalid => start over */
@@ -223,6 +225,35 @@ namespace QDLIB {
       }
    }
    
+   /**
+    * Get the keys of all operators in the storage.
+    */
+   set<string> GlobalOpList::Keys() const
+   {
+      set<string> keys;
+      map<string, _OpEntry>::const_iterator it;
+
+      for (it = _OpStore.begin(); it != _OpStore.end(); it++)
+         keys.insert((*it).first);
+
+      return keys;
+   }
+
+   /**
+    * Delete all operators which are not in the set of keys.
+    */
+   void GlobalOpList::Restore(const set<string>& keys)
+   {
+      map<string, _OpEntry>::iterator it = _OpStore.begin();
+
+      while ( it != _OpStore.end() ) {
+         if ( keys.find((*it).first) == keys.end() ) {
+            DELETE_OP(((*it).second).Op);
+            _OpStore.erase(it++);
+         } else it++;
+      }
+   }
+
    /* Singleton Initializer */
    GlobalOpList* GlobalOpList::_ref = 0;
 }
diff --git a/src/GlobalOpList.h b/src/GlobalOpList.h
index 4ee35d1..1e20d54 100644
--- a/src/GlobalOpList.h
+++ b/src/GlobalOpList.h
@@ -6,6 +6,7 @@
 #define GLOBALOPLIST_H
 
 #include <map>
+#include <set>
 
 #include "qdlib/Operator.h"
 
@@ -43,7 +44,7 @@ namespace QDLIB {
          static GlobalOpList& Instance();
          static void Destroy();
          
-         void Clear();
+         void Clear(bool all = false);
          
          void Add(string &key, Operator* op, bool persist = false);
          
@@ -60,6 +61,10 @@ namespace QDLIB {
          Operator* operator[]( const string &key );
          
          void PrintList();
+
+         set<string> Keys() const;
+
+         void Restore(const set<string>& keys);
          
    };
 
-- 
2.43.0


From d5ea7440e8599419f16bc4cafa08e6a43dfa105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 063/101] fix: laser fields without clock, outside their range
 and with stale spectra

---
 src/qdlib/Laser.cpp | 73 ++++++++++++++++++++++++++++++++++-----------
 src/qdlib/Laser.h   |  3 ++
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index ffcb91b..fcc095a 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -8,14 +8,35 @@
 
 namespace QDLIB {
    
-   Laser::Laser() : _name("Laser"), _clock(NULL), _scale(1), _fft(NULL), _spectrum(NULL)
+   Laser::Laser() : _name("Laser"), _clock(NULL), _dt(0), _scale(1), _fft(NULL), _spectrum(NULL)
    {}
 
    Laser::~ Laser()
+   {
+      _DropSpectrum();
+   }
+
+   /**
+    * The spectrum doesn't belong to the field anymore.
+    */
+   void Laser::_DropSpectrum()
    {
       if (_fft != NULL) delete _fft;
       if (_spectrum != NULL) delete _spectrum;
-      
+
+      _fft = NULL;
+      _spectrum = NULL;
+   }
+
+   /**
+    * The clock is needed to do something at the actual time step.
+    */
+   QDClock& Laser::_NeedClock() const
+   {
+      if (_clock == NULL)
+         throw ( EParamProblem("The laser has no clock") );
+
+      return *_clock;
    }
 
    Laser::FileLaser& Laser::File( )
@@ -46,6 +67,7 @@ namespace QDLIB {
 	 throw ( EParamProblem("The laser is missing the number of time steps") );
       _params.GetValue("Nt", Nt);
       
+      _DropSpectrum();
       dVec::newsize(Nt);
    }
 
@@ -67,7 +89,7 @@ namespace QDLIB {
       Spectrum();
       
       dVec *power = new dVec(_clock->Steps()/2+1);
-      for (int i=0; i < dVec::size(); i++){
+      for (int i=0; i < power->size(); i++){
 	 (*power)[i] = cabs((*_spectrum)[i]);
       }
       return power;
@@ -80,9 +102,17 @@ namespace QDLIB {
     */
    cVec * Laser::Spectrum()
    {
+      QDClock& clock = _NeedClock();
+
+      if (clock.Steps() < 1 || clock.Steps() > dVec::size())
+         throw ( EParamProblem("Clock values doesn't fit the laser field") );
+
+      if (_spectrum != NULL && _spectrum->size() != clock.Steps()/2+1)
+         _DropSpectrum();
+
       if (_spectrum == NULL){
-         downsize(_clock->Steps());
-         _spectrum = new cVec(_clock->Steps()/2+1);
+         downsize(clock.Steps());
+         _spectrum = new cVec(clock.Steps()/2+1);
       }
       if (_fft == NULL) _fft = new FFT( *this, *_spectrum);
       
@@ -106,9 +136,9 @@ namespace QDLIB {
    void Laser::Clock(QDClock * clock)
    {
       if (clock==NULL) return;
-      _clock = clock;
       if (clock->Dt() != _dt || clock->Steps() > dVec::size())
 	 throw ( EParamProblem("Clock values doesn't fit the laser field") );
+      _clock = clock;
    }
 
    /**
@@ -121,10 +151,16 @@ namespace QDLIB {
 
    /**
     * Get laser value at actual timestep
+    *
+    * There is no field outside the sampled range.
     */
    double Laser::Get()
    {
-      return (*this)[_clock->TimeStep()] * _scale;
+      const int t = _NeedClock().TimeStep();
+
+      if (t < 0 || t >= dVec::size()) return 0;
+
+      return (*this)[t] * _scale;
    }
    
    /**
@@ -132,7 +168,12 @@ namespace QDLIB {
     */
    void Laser::Set(double value)
    {
-      (*this)[_clock->TimeStep()] = value;
+      const int t = _NeedClock().TimeStep();
+
+      if (t < 0 || t >= dVec::size())
+         throw ( EOverflow("Laser field set outside of its range") );
+
+      (*this)[t] = value;
    }
    
    /**
@@ -144,7 +185,7 @@ namespace QDLIB {
    {
       double sum=0;
 
-      for (int t=0; t < _clock->TimeStep(); t++){
+      for (int t=0; t < _NeedClock().TimeStep() && t < dVec::size(); t++){
          sum += (*this)[t];
       }
 
@@ -158,14 +199,8 @@ namespace QDLIB {
        _params = laser._params;
       _dt = laser._dt;
       _scale = laser._scale;
-      if (_spectrum != NULL){
-         delete _spectrum;
-         _spectrum = NULL;
-      }
-      if (_fft != NULL){
-         delete _fft;
-         _fft=NULL;
-      }
+      _DropSpectrum();
+
       return *this;
    }
 
@@ -179,7 +214,7 @@ namespace QDLIB {
       for(int i=0; i < size(); i++){
 	 d += (*this)[i] * (*this)[i];
       }
-      d *= _scale;
+      d *= _scale * _scale;
       return ( 137.0359996  / (4 * M_PI) * d * _dt );
       /*       c0 in au          eps_0 in au             */
    }
@@ -200,6 +235,7 @@ namespace QDLIB {
     */
    void Laser::Nt(int size)
    {
+      _DropSpectrum();
       dVec::newsize(size);
       _params.SetValue("Nt",size) ;
    }
@@ -237,6 +273,7 @@ namespace QDLIB {
 
       _dt = dt;
 
+      _DropSpectrum();
       newsize(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index 9cb6929..5a69f32 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -31,6 +31,9 @@ namespace QDLIB
          ParamContainer _params;
 
          FileLaser _file;
+
+         void _DropSpectrum();
+         QDClock& _NeedClock() const;
       public:
 
          Laser();
-- 
2.43.0


From 6829f0d79bf4d2b7cba68395d6994c0438aa246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 064/101] fix: a propagator whose initialization failed is not
 valid

---
 src/qdlib/OArnoldi.cpp |  2 +-
 src/qdlib/OCheby.cpp   |  2 +-
 src/qdlib/OGSPO.cpp    | 51 ++++++++++++++++++++----------------------
 src/qdlib/ORK4.cpp     | 10 ++++-----
 src/qdlib/OSIL.cpp     |  2 +-
 5 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index e9a455a..c8ad0a5 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -255,7 +255,7 @@ namespace QDLIB
 
    bool OArnoldi::Valid(WaveFunction * Psi)
    {
-      if (H == NULL)
+      if (H == NULL || buf0 == NULL)
          return false;
 
       return H->Valid(Psi);
diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index abfbfd2..c1e31e5 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -503,7 +503,7 @@ namespace QDLIB
 
    bool OCheby::Valid(WaveFunction * Psi)
    {
-      if (H == NULL) return false;
+      if (H == NULL || ket0 == NULL) return false;
 
       return H->Valid(Psi);
    }
diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 79501dc..f1f2401 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -64,45 +64,42 @@ namespace QDLIB
       if (_exp[0].size() > 0) return; // Avoid init twice
 
 
-      /* Initalize with all elements hamiltonian */
-      if (H == NULL) {
-         H = new OSum();
-      }
+      if (clock == NULL)
+         throw(EParamProblem("Propagator has no clock!"));
 
-      /* Grab and check operators from list */
-      for (int i=0; i < OList::Size(); i++) {
-         char base[2] = "A";
-         base[0] += i;
+      if (OList::Size() < 1)
+         throw(EParamProblem("GSPO is empty!"));
 
-         Operator* O = Get(string(base));
+      /* Check operators from list, before anything is changed */
+      for (int i=0; i < OList::Size(); i++) {
+         Operator* O = Get(string(1, 'A' + i));
 
-         ODSpace *op = dynamic_cast<ODSpace*> (O);
-         if (op == NULL)
+         if (dynamic_cast<ODSpace*> (O) == NULL)
             throw(EIncompatible("GSPO: Operator has no diagonal representation", O->Name()));
-
-         _ops[int(i)] = op;
-         _spoLen++;
-         dynamic_cast<OSum*>(H)->Add(string(base), op);
       }
 
-      _spoLen = OList::Size();
+      OPropagator::Init(Psi);
 
-      if (clock == NULL)
-         throw(EParamProblem("Propagator has no clock!"));
+      /* Initalize with all elements hamiltonian */
+      if (H == NULL) {
+         OSum* sum = new OSum();
 
-      if (_spoLen < 1)
-         throw(EParamProblem("GSPO is empty!"));
-      
-      for (int i = 0; i < _spoLen; i++) {
-         if (_ops[i] == NULL)
-            throw(EParamProblem("GSPO misses an operator. Sequence must be A, B, C, ..."));
+         for (int i=0; i < OList::Size(); i++) {
+            const string name(1, 'A' + i);
 
-         _exp[i].newsize(Psi->size(), Psi->strides());
+            _ops[i] = dynamic_cast<ODSpace*> (Get(name));
+            sum->Add(name, _ops[i]);
+         }
+         H = sum;
       }
 
-      OPropagator::Init(Psi);
+      _spoLen = OList::Size();
+
       H->Init(Psi);
       H->Clock(Operator::Clock());
+
+      for (int i = 0; i < _spoLen; i++)
+         _exp[i].newsize(Psi->size(), Psi->strides());
    }
 
    void OGSPO::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
@@ -169,7 +166,7 @@ namespace QDLIB
 
    bool OGSPO::Valid(WaveFunction *Psi)
    {
-      if (Psi == NULL || _spoLen < 1) return false;
+      if (Psi == NULL || _spoLen < 1 || _exp[0].size() == 0) return false;
 
       for (int i = 0; i < _spoLen; i++) {
          if (_ops[i]->Valid(Psi) == false)
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index b1fe217..e741556 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -36,13 +36,13 @@ namespace QDLIB
       
       H = Get("hamiltonian");
 
-      for (int i=0; i < 5; i++){
-         _buf[i] = Psi->NewInstance();
-      }
-
       OPropagator::Init(Psi);
       H->Init(Psi);
       H->Clock(Operator::Clock());
+
+      for (int i=0; i < 5; i++){
+         _buf[i] = Psi->NewInstance();
+      }
    }
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
@@ -127,7 +127,7 @@ namespace QDLIB
 
    bool ORK4::Valid(WaveFunction *Psi)
    {
-      if (H == NULL) return false;
+      if (H == NULL || _buf[0] == NULL) return false;
 
       return H->Valid(Psi);
    }
diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 726163b..8b1a223 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -255,7 +255,7 @@ namespace QDLIB {
 
     bool QDLIB::OSIL::Valid(WaveFunction * Psi)
     {
-        if (H == NULL) return false;
+        if (H == NULL || buf0 == NULL) return false;
 
         return H->Valid(Psi);
     }
-- 
2.43.0


From aaa50b326e58d6b5d08c60beb091513411d929d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 065/101] fix: matrices and lasers are serializable

---
 src/qdlib/Laser.h            | 3 ++-
 src/qdlib/OHermitianMatrix.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index 5a69f32..060e9dc 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -10,6 +10,7 @@
 #include "tools/QDClock.h"
 #include "fft/fft.h"
 #include "tools/FileSingle.h"
+#include "qdlib/Serializable.h"
 
 namespace QDLIB
 {
@@ -17,7 +18,7 @@ namespace QDLIB
    /**
     * Class which represents a laser field.
     */
-   class Laser : public dVec
+   class Laser : public dVec, public Serializiable
    {
       public:
          typedef FileSingle<Laser> FileLaser;
diff --git a/src/qdlib/OHermitianMatrix.h b/src/qdlib/OHermitianMatrix.h
index 7fa0f50..eebfbb3 100644
--- a/src/qdlib/OHermitianMatrix.h
+++ b/src/qdlib/OHermitianMatrix.h
@@ -6,6 +6,7 @@
 #define OHERMAT_H
 
 #include "qdlib/ODSpace.h"
+#include "qdlib/Serializable.h"
 #include "tools/FileSingle.h"
 #include "qdlib/TransformMat.h"
 
@@ -25,7 +26,7 @@ namespace QDLIB
     *
     * \todo modify matrix classes to provide real, efficient hermitian matrices.
     */
-   class OHermitianMatrix: public dMat, public ODSpace
+   class OHermitianMatrix: public dMat, public ODSpace, public Serializiable
    {
       public:
          typedef FileSingle<OHermitianMatrix> FileMatrix;
@@ -84,6 +85,7 @@ namespace QDLIB
          virtual void Serialize (std::ostream& os);
 
          virtual void DeSerialize (std::istream& is);
+         virtual ParamContainer& Params() { return Operator::Params(); }
    };
 
 }
-- 
2.43.0


From 21a749bb855e9dd134575c7c5a8b573321e43cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 066/101] fix: a program that fails leaves no operators behind
 in the session

---
 src/CmdHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 3e0b2a4..995bf78 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -348,7 +348,15 @@ namespace QDLIB
          return;
       }
 
-      RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
+      GlobalOpList& gol = GlobalOpList::Instance();
+      const set<string> keys = gol.Keys();
+
+      try {
+         RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
+      } catch (...) {
+         gol.Restore(keys); // Don't keep parts of a failed program
+         throw;
+      }
 
       send_OK(false);
    }
-- 
2.43.0


From 26cbaa66e5d60fd516e487f9f245e333f53459ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 067/101] fix: the Raman coupling inside sums and exponentials
 uses its fields

---
 src/qdlib/OGridRaman.cpp | 7 ++++++-
 src/qdlib/OGridRaman.h   | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 6d92ed3..5ee6f20 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -48,6 +48,11 @@ namespace QDLIB {
       MultElements((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
+   void OGridRaman::ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi)
+   {
+      MultElementsAdd((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
+   }
+
    void OGridRaman::Apply(WaveFunction *Psi)
    {
       MultElements((cVec*) Psi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
@@ -78,7 +83,7 @@ namespace QDLIB {
    void OGridRaman::InitExponential (cVec *exp, dcomplex c)
    {
       if (_dspace == NULL) InitDspace();
-      ExpElements(exp, _dspace, -1 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
+      ExpElements(exp, _dspace, -.5 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
 }
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index 586a5f9..12f22f2 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -45,6 +45,8 @@ namespace QDLIB
 
          virtual void Apply(WaveFunction *Psi);
 
+         virtual void ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi);
+
          virtual Operator* operator=(Operator* O);
 
          virtual Operator* Copy(Operator* O);
-- 
2.43.0


From 0119cf4ff238d668da8ae3f68564edaa2f6f2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 068/101] fix: time dependent operators in a grid sum are
 applied at the actual time step

---
 src/qdlib/OGridSum.cpp | 51 ++++++++++++++++++++++++++++++++++++------
 src/qdlib/OGridSum.h   |  2 ++
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index ffea056..001afdb 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -23,17 +23,18 @@ namespace QDLIB {
 
    /**
     * Update the sum representation.
+    *
+    * It holds the time independent operators only, the others are applied as they are
+    * at the actual time step.
     */
    void QDLIB::OGridSum::_Update( )
    {
-      
-      _O[0]->UpdateTime();
-      for (int i=0; i < dVec::size(); i++)      /* Loop over grid points, first operator */
-	 (*((dVec*) this))[i] = (*(_O[0]))[i];
-      
-      
-      for (int k=1; k < _size; k++) {           /* Loop over operators */
+      for (int i=0; i < dVec::size(); i++)
+	 (*((dVec*) this))[i] = 0;
+
+      for (int k=0; k < _size; k++) {           /* Loop over operators */
 	 _O[k]->UpdateTime();
+	 if (_O[k]->isTimeDep()) continue;
 	 for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
 	    (*this)[i] += (*(_O[k]))[i];
       }
@@ -118,14 +119,50 @@ namespace QDLIB {
       if(! _isUpTodate) _Update( );
         
       MultElements( (cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this);
+
+      if (!_isTimedependent) return;
+
+      for (int k=0; k < _size; k++)
+	 if (_O[k]->isTimeDep()) _O[k]->ApplyAdd(destPsi, sourcePsi);
    }
 
    void OGridSum::Apply( WaveFunction * Psi )
    {   
+      if (_isTimedependent) {
+	 WaveFunction *buf = Psi->NewInstance();
+
+	 *buf = Psi;
+	 Apply(Psi, buf);
+	 DELETE_WF(buf);
+	 return;
+      }
+
       if(! _isUpTodate) _Update( );
       
       MultElements( (cVec*) Psi, (dVec*) this);
    }
+
+   /**
+    * The time dependent operators contribute with their own exponentials.
+    */
+   void OGridSum::InitExponential(cVec *exp, dcomplex c)
+   {
+      if(! _isUpTodate) _Update( );
+
+      OGridSystem::InitExponential(exp, c);
+
+      if (!_isTimedependent) return;
+
+      cVec buf(exp->size());
+
+      for (int k=0; k < _size; k++) {
+	 if (! _O[k]->isTimeDep()) continue;
+
+	 _O[k]->InitExponential(&buf, c);
+	 for (lint i=0; i < exp->size(); i++)
+	    (*exp)[i] *= buf[i];
+      }
+   }
       
    
    Operator* OGridSum::operator =( Operator * O )
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index 6e32093..72074ba 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -66,6 +66,8 @@ namespace QDLIB {
 	 
 	 virtual void Apply(WaveFunction *Psi);
 	 
+	 virtual void InitExponential(cVec *exp, dcomplex c);
+
          virtual Operator* operator=(Operator* O);
 	 
 	 virtual Operator* Copy(Operator* O);
-- 
2.43.0


From f70e82361b023252ac0749926d07b2ef3de514f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 069/101] fix: a laser field shortened by its spectrum can be
 stored and read

---
 src/qdlib/Laser.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index fcc095a..6ea8dc7 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -107,13 +107,20 @@ namespace QDLIB {
       if (clock.Steps() < 1 || clock.Steps() > dVec::size())
          throw ( EParamProblem("Clock values doesn't fit the laser field") );
 
-      if (_spectrum != NULL && _spectrum->size() != clock.Steps()/2+1)
-         _DropSpectrum();
+      /* The spectrum covers the steps of the clock, the rest of the field is dropped */
+      if (clock.Steps() != dVec::size()) {
+         dVec field(clock.Steps());
 
-      if (_spectrum == NULL){
-         downsize(clock.Steps());
-         _spectrum = new cVec(clock.Steps()/2+1);
+         for (lint i=0; i < field.size(); i++)
+            field[i] = (*this)[i];
+
+         Nt(field.size());
+         *((dVec*) this) = field;
       }
+
+      if (_spectrum == NULL)
+         _spectrum = new cVec(clock.Steps()/2+1);
+
       if (_fft == NULL) _fft = new FFT( *this, *_spectrum);
       
       _fft->forward();
@@ -271,10 +278,8 @@ namespace QDLIB {
       if (!(dt > 0))
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
-      _dt = dt;
-
-      _DropSpectrum();
-      newsize(size);
+      Dt(dt);
+      Nt(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
       if (!is)
-- 
2.43.0


From de67e6329cf102ff01822f82b66dd67db2206b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 070/101] fix: a restarted propagation continues at the step of
 its start wave function

---
 src/ProgPropa.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8bbb9be..8cd5fdc 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -60,7 +60,7 @@ namespace QDLIB {
       /* Init write cycles */
       if ( attr.isPresent("wcycle") ) {
 	 attr.GetValue("wcycle", _wcycle);
-	 if ( steps < 1)
+	 if ( _wcycle < 1)
 	    throw ( EParamProblem ("Write cycle less than one defined") );
 	 _reporter.WriteCycle(_wcycle);
       }
@@ -305,13 +305,12 @@ namespace QDLIB {
          log.FileOutput( _nfile );
       }
 
-      lint start;
-      if (_start == 0)
-	 start=1;
-      else
-	 start = _start;
+      /* The first step to take: _start is the number of the first wave function to write */
+      lint start = 1;
+      if (_start > 0)
+	 start = (lint(_start) - 1) * _wcycle + 1;
       
-      clock->TimeStep(_start);
+      clock->TimeStep(start - 1);
       
       try {
       for (lint i=start; i <= clock->Steps(); i++){
-- 
2.43.0


From 2bda23614a7cadb76a42fef10207b4f6396aaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 071/101] fix: a program without content is an error, not a
 crash

---
 src/ProgCfun.cpp   | 4 ++++
 src/ProgEigen.cpp  | 2 ++
 src/ProgFilter.cpp | 2 ++
 src/ProgOCT.cpp    | 2 ++
 src/ProgPropa.cpp  | 2 ++
 5 files changed, 12 insertions(+)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 0170d32..860c3c5 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -111,6 +111,8 @@ namespace QDLIB
       log.IndentInc();
 
       XmlNode *child = section->NextChild();
+      if (child == NULL)
+	  throw ( EParamProblem ("Empty section", name) );
       child->AdjustElementNode();
 
       while (child->EndNode()){
@@ -398,6 +400,8 @@ namespace QDLIB
 
     /* fetch the ChildNodes */
     ContentNodes_ = CfunNode_.NextChild();
+    if (ContentNodes_ == NULL)
+	 throw ( EParamProblem ("Empty program section provided") );
 
     /* Load & Init the propagator */
     section = ContentNodes_->FindNode( "propagator" );
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 105a940..5841a5c 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -664,6 +664,8 @@ namespace QDLIB
 
       /* Load & Init the propagator */
       _ContentNodes = _EigenNode.NextChild();
+      if (_ContentNodes == NULL)
+	 throw ( EParamProblem ("Empty program section provided") );
 
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index cfe090e..60fb0a2 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -133,6 +133,8 @@ namespace QDLIB
       wffiles >> &WF;
 
       XmlNode *ContentNodes = _FilterNode.NextChild();
+      if (ContentNodes == NULL)
+         throw ( EParamProblem ("Empty program section provided") );
 
       /* Post step filters */
       XmlNode *section = ContentNodes->FindNode( "filterdef" );
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 60c5f8d..91aa5cf 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -812,6 +812,8 @@ namespace QDLIB
 
       /* fetch the ChildNodes */
       _ContentNodes = _octNode.NextChild();
+      if (_ContentNodes == NULL)
+         throw ( EParamProblem ("Empty program section provided") );
 
       log.Header("QM Initialization", Logger::Section);
       log.Header("Propagator: ", Logger::SubSection);
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8cd5fdc..64b8f79 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -186,6 +186,8 @@ namespace QDLIB {
       
       /* fetch the ChildNodes */
       _ContentNodes = _propaNode.NextChild();
+      if (_ContentNodes == NULL)
+	 throw ( EParamProblem ("Empty program section provided") );
       
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
-- 
2.43.0


From bfc089eccd3866295ca684214403ef43511d8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 072/101] fix: runs without a home directory or with an empty
 output directory

---
 src/CmdHandler.cpp         | 2 +-
 src/ProgCfun.cpp           | 2 +-
 src/ProgEigen.cpp          | 2 +-
 src/ProgFilter.cpp         | 2 +-
 src/ProgOCT.cpp            | 2 +-
 src/ProgPropa.cpp          | 2 +-
 src/tools/GlobalParams.cpp | 5 +++--
 7 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 995bf78..7ff4957 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -107,7 +107,7 @@ namespace QDLIB
 
       if (gp.isPresent("dir")) {
          gp.GetValue("dir", dir);
-         if (dir[dir.length() - 1] != '/' && !dir.empty())
+         if (!dir.empty() && dir[dir.length() - 1] != '/')
             dir += "/";
          gp.SetValue("dir", dir);
       }
diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 860c3c5..94930bc 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -40,7 +40,7 @@ namespace QDLIB
     /* Init output dir */
     if ( attr.isPresent("dir") && dir_.empty() ) {
 	 attr.GetValue("dir", dir_);
-	 if (dir_[dir_.length()-1] != '/' && ! dir_.empty())
+	 if (! dir_.empty() && dir_[dir_.length()-1] != '/')
 	    dir_ += "/";
     }
     FS::CreateDir(dir_);
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 5841a5c..89e1c3e 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -257,7 +257,7 @@ namespace QDLIB
       /* Init propagation output dir */
       if ( attr.isPresent("dir") && _dir.empty()) {
 	 attr.GetValue("dir", _dir);
-	 if (_dir[_dir.length()-1] != '/' && ! _dir.empty())
+	 if (! _dir.empty() && _dir[_dir.length()-1] != '/')
 	    _dir += "/";
       }
       FS::CreateDir(_dir);
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index 60fb0a2..a438a52 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -46,7 +46,7 @@ namespace QDLIB
       if (attr.isPresent("dir") && _dir.empty())
       {
          attr.GetValue("dir", _dir);
-         if (_dir[_dir.length() - 1] != '/' && !_dir.empty())
+         if (!_dir.empty() && _dir[_dir.length() - 1] != '/')
             _dir += "/";
       }
       FS::CreateDir(_dir);
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 91aa5cf..9ee8aa6 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -74,7 +74,7 @@ namespace QDLIB
       /* Init OCT output dir */
       if (attr.isPresent("dir") && _dir.empty()) {
          attr.GetValue("dir", _dir);
-         if (_dir[_dir.length() - 1] != '/' && !_dir.empty())
+         if (!_dir.empty() && _dir[_dir.length() - 1] != '/')
             _dir += "/";
       }
       FS::CreateDir(_dir);
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 64b8f79..bc9544d 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -68,7 +68,7 @@ namespace QDLIB {
       /* Init propagation output dir */
       if ( attr.isPresent("dir") && _dir.empty() ) {
 	 attr.GetValue("dir", _dir);
-	 if (_dir[_dir.length()-1] != '/' && ! _dir.empty())
+	 if (! _dir.empty() && _dir[_dir.length()-1] != '/')
 	    _dir += "/";
       }
       FS::CreateDir(_dir);
diff --git a/src/tools/GlobalParams.cpp b/src/tools/GlobalParams.cpp
index 96e6291..1a6ad66 100644
--- a/src/tools/GlobalParams.cpp
+++ b/src/tools/GlobalParams.cpp
@@ -15,8 +15,9 @@ namespace QDLIB {
          _ref = new ParamContainer();
 
          /* Look for config file in home */
-         string home(getenv("HOME"));
-         if ( FS::IsFile(home + "/" + QD_CONFIG_FILE_HOME) ){
+         const char *env = getenv("HOME");
+         string home(env != NULL ? env : "");
+         if ( env != NULL && FS::IsFile(home + "/" + QD_CONFIG_FILE_HOME) ){
             _ref->ReadFromFile(home + "/" + QD_CONFIG_FILE_HOME);
          }
          if ( FS::IsFile(QD_CONFIG_FILE_LOCAL) ){ /* Look for config in current directory */
-- 
2.43.0


From 08e943157d0485db9be64cfd3314a5a4f2af5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 073/101] fix: the projection in the report keeps its digits
 without norm and energy

---
 src/Reporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 7e87690..7b32b79 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -135,6 +135,7 @@ namespace QDLIB
       /* projection and spectrum */
       if (_proj0){
 	 proj = *Psi * _psi0;
+	 log.cout().precision(8);
 	 if (_proj0Sq) /* Squared - Normal*/
 	    log.cout() << "\t" << cabs(proj)*cabs(proj);
 	 else
-- 
2.43.0


From 77ff0db4709c6f1ce2f87cbf8831e7f778746215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 074/101] fix: correlation functions apply every operator of a
 ket or bra segment, and only once

---
 src/ProgCfun.cpp | 110 +++++++++++++----------------------------------
 src/ProgCfun.h   |   5 +--
 2 files changed, 33 insertions(+), 82 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 94930bc..15ce062 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -22,7 +22,7 @@ namespace QDLIB
 
   ProgCfun::ProgCfun (XmlNode& CfunNode) :
       CfunNode_(CfunNode), ContentNodes_(NULL), dir_(""), fname_(QD_CFUN_FNAME),
-      stepsint_(0), U_(NULL), H_(NULL), ket_first_op_(0), bra_first_op_(0), num_u_(0), wcycle_(1)
+      stepsint_(0), U_(NULL), H_(NULL), num_u_(0), wcycle_(1)
   {
   }
 
@@ -100,11 +100,10 @@ namespace QDLIB
     log.IndentDec();
   }
 
-  int ProgCfun::ReadKetBra(const string& name, vector<Operator*>& kb )
+  void ProgCfun::ReadKetBra(const string& name, vector<Operator*>& kb )
   {
     Logger& log = Logger::InstanceRef();
     XmlNode* section = ContentNodes_->FindNode( name );
-    int first_op = -1; int i=0;
 
     if (section != NULL) {
       log.Header( "Read definiton for " + name, Logger::SubSection);
@@ -120,18 +119,14 @@ namespace QDLIB
 	      kb.push_back(NULL);  /* empty defintion means propgator*/
 	      num_u_++;
 	  } else {
-	      if (first_op < 0) first_op = i;
 	      kb.push_back( ChainLoader::LoadOperatorChain( child ) );
 	  }
-	  i++;
 	  child->NextNode();
       }
 
       delete section;
       log.IndentDec();
     }
-
-    return first_op;
   }
 
   void ProgCfun::CreateMetaData(int dims, ParamContainer &pm)
@@ -145,34 +140,25 @@ namespace QDLIB
   WaveFunction* ProgCfun::InitializeKetBra(bool bra)
   {
     WaveFunction* psi_t = Psi0->NewInstance();
-    int first_op = ket_first_op_;
-    vector<Operator*>* ops = &ket_;
 
-    if (bra) {
-      first_op = bra_first_op_;
-      ops = &bra_;
-    }
+    /* apply operator list before propagating */
+    *psi_t = Psi0;
+    ApplySegment(bra ? bra_ : ket_, 0, psi_t);
 
-    if ((*ops)[0] != NULL) {
-      /* apply operator list before propagating */
-      *psi_t = Psi0;
-      for (size_t i=0; i < ops->size(); i++) {
-         if ((*ops)[i] == NULL) {
-             first_op++;
-             break;
-         }
-         (*ops)[i]->Apply(psi_t);
-         first_op++;
-      }
-    } else {
-      *psi_t = Psi0;
-    }
+    return psi_t;
+  }
 
-    if (bra) {
-      bra_first_op_ = first_op;
+  /**
+   * Apply the operators between the nu-th propagator of a ket/bra definition and the following one.
+   */
+  void ProgCfun::ApplySegment(vector<Operator*>& ops, int nu, WaveFunction* psi)
+  {
+    for (size_t i=0; i < ops.size() && nu >= 0; i++) {
+      if (ops[i] == NULL)
+	nu--;
+      else if (nu == 0)
+	ops[i]->Apply(psi);
     }
-
-    return psi_t;
   }
 
   /**
@@ -208,12 +194,7 @@ namespace QDLIB
 	*psi_t = ket;
 
 	master_clock_.TimeStep(t * wcycle_); // make sure time dependent ops are in sync
-	for (uint i=ket_first_op_; i < ket_.size(); i++){
-	    if (ket_[i] != NULL){
-		ket_[i]->Apply(psi_t);
-	    } else
-	      break;
-	}
+	ApplySegment(ket_, 1, psi_t);
 
 	if ( bra == NULL) {
 	    cfun[t] = *ket * psi_t;
@@ -274,23 +255,14 @@ namespace QDLIB
     log.flush();
 
 
-    // find the first operators after the first U in ket and bra
-    uint nUket = 0; uint first_ket = 0;
-    for (uint i=0; i < ket_.size(); i++){
-	if ( ket_[i] == NULL ) {
-	    nUket++;
-	} else
-	    if (nUket == 1) first_ket = i;
-    }
+    // count the propagators in ket and bra
+    uint nUket = 0;
+    for (uint i=0; i < ket_.size(); i++)
+	if ( ket_[i] == NULL ) nUket++;
 
-    uint nUbra = 0; uint first_bra = 0;
-    if (bra != NULL)
-	for (uint i=0; i < bra_.size(); i++){
-	    if ( bra_[i] == NULL ) {
-		nUbra++;
-	    } else
-		if (nUbra == 1) first_bra = i;
-	}
+    uint nUbra = 0;
+    for (uint i=0; i < bra_.size(); i++)
+	if ( bra_[i] == NULL ) nUbra++;
 
     // figure out which variant to use
     bool lhsint = false; // case a = true, b = false
@@ -306,12 +278,7 @@ namespace QDLIB
 	master_clock_.TimeStep(t1*wcycle_);
 	if (lhsint) {
 	    *psi_t_k = wfbuffer.Get(t1); // U|Psi0>
-	    for (uint i=first_ket; i < ket_.size(); i++){ // O1 U|Psi0>
-		if (ket_[i] != NULL){
-		    ket_[i]->Apply(psi_t_k);
-		} else
-		  break;
-	    }
+	    ApplySegment(ket_, 1, psi_t_k); // O1 U|Psi0>
 	}
 
 	// Propagate independent bra side
@@ -325,14 +292,8 @@ namespace QDLIB
 	    master_clock_.TimeStep(step); // restore time step
 	}
 
-	if (!lhsint) {
-	    for (uint i=first_bra; i < bra_.size(); i++){ //  <Psi0|U+ O1
-		if (bra_[i] != NULL){
-		    bra_[i]->Apply(psi_t_b);
-		} else
-		  break;
-	    }
-	}
+	if (!lhsint)
+	    ApplySegment(bra_, 1, psi_t_b); //  <Psi0|U+ O1
 
 	master_clock_.TimeStep(t1*wcycle_);
 	for (int t2=t1; t2 < Nt; t2++){
@@ -346,16 +307,7 @@ namespace QDLIB
 
 	    // Signal interaction on ket
 	    *psi_t_s = psi_t_k;
-	    int ketsigop = first_ket+2;
-	    if (!lhsint)
-		ketsigop = first_ket;
-
-	    for (uint i=ketsigop; i < ket_.size(); i++){
-		if (ket_[i] != NULL){
-		    ket_[i]->Apply(psi_t_s);
-		} else
-		  break;
-	    }
+	    ApplySegment(ket_, lhsint ? 2 : 1, psi_t_s);
 
 	    if (lhsint)
 		cfun[t1*Nt+t2] = *psi_t_b * psi_t_s;
@@ -464,13 +416,13 @@ namespace QDLIB
     H_->UpdateTime();
 
     /* Get defintion for bra */
-    bra_first_op_ = ReadKetBra("bra", bra_);
+    ReadKetBra("bra", bra_);
     for (uint i=0; i < bra_.size(); i++) {
 	if (bra_[i] != NULL) bra_[i]->Init(Psi0);
     }
 
     /* Get defintion for ket */
-    ket_first_op_ = ReadKetBra("ket", ket_);
+    ReadKetBra("ket", ket_);
     for (uint i=0; i < ket_.size(); i++) {
        if (ket_[i] != NULL) ket_[i]->Init(Psi0);
     }
diff --git a/src/ProgCfun.h b/src/ProgCfun.h
index 39e1eca..3f45bdc 100644
--- a/src/ProgCfun.h
+++ b/src/ProgCfun.h
@@ -59,9 +59,7 @@ namespace QDLIB
       Operator* H_;
       WaveFunction* Psi0;
       vector<Operator*> ket_;
-      int ket_first_op_;
       vector<Operator*> bra_;
-      int bra_first_op_;
       int num_u_;
 
       WFBuffer wfbuffer;
@@ -70,8 +68,9 @@ namespace QDLIB
       int wcycle_;
 
       void InitParams_();
-      int ReadKetBra(const string& name, vector<Operator*>& kb );
+      void ReadKetBra(const string& name, vector<Operator*>& kb );
       void CreateMetaData(int dims, ParamContainer &pm);
+      void ApplySegment(vector<Operator*>& ops, int nu, WaveFunction* psi);
       WaveFunction* InitializeKetBra(bool bra = false);
       void RunC1();
       void RunC2();
-- 
2.43.0


From 74a97dfd8f601fcf241ab1bc51b25307645851f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 075/101] fix: the bra of a correlation function starts at time
 zero

---
 src/ProgCfun.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 15ce062..ba1209b 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -199,11 +199,11 @@ namespace QDLIB
 	if ( bra == NULL) {
 	    cfun[t] = *ket * psi_t;
 	} else {
+	    cfun[t] = *bra * psi_t;
 	    for (int tb=0; tb < wcycle_; tb++) {
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    cfun[t] = *bra * psi_t;
 	}
     }
 
@@ -284,11 +284,11 @@ namespace QDLIB
 	// Propagate independent bra side
 	if (bra != NULL){
 	    int step = master_clock_.TimeStep();
+	    *psi_t_b = bra;
 	    for (int i=0; i < wcycle_; i++) {
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    *psi_t_b = bra;
 	    master_clock_.TimeStep(step); // restore time step
 	}
 
-- 
2.43.0


From 177dfb9ffb2cf2568c82ee952bd8b352029d7550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 076/101] fix: correlation functions over a recorded
 propagation

---
 src/ProgCfun.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index ba1209b..6746a82 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -388,22 +388,27 @@ namespace QDLIB
 
 	int Nt, wcycle;
 	double dt;
+	string base;
 	propagation_meta.GetValue("Nt", Nt);
-	propagation_meta.GetValue("wcycle", wcycle);
+	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
+	propagation_meta.GetValue("WFBaseName", base);
+	if (wcycle < 1)
+	    throw(EParamProblem("Write cycle less than one in propagation meta file"));
 
 	master_clock_.Dt(dt);
 	master_clock_.Steps(Nt);
 	wcycle_ = wcycle;		/* use wcycle from propagation */
 
 	/* Read propagation */
-	wfbuffer.ReadFromFiles(read_dir_);
+	wfbuffer.ReadFromFiles(read_dir_ + "/" + base);
 
-	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size());
+	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size() * wcycle);
 	if (wfbuffer.Size() < 1 )
 	  throw (EParamProblem("Wave function buffer is empty"));
 
-	Psi0 = wfbuffer[0];
+	Psi0 = wfbuffer[0]->NewInstance();
+	*Psi0 = wfbuffer[0];
     }
 
     log.IndentDec();
@@ -437,7 +442,7 @@ namespace QDLIB
     if (ket_.back() == NULL)
 	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
 
-    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || bra_[0] != NULL))
+    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (bra_.size() > 0 && bra_[0] != NULL)))
       throw (EParamProblem("Pre-propagated time series requires a propagator as first element int the ket and bra definitions."));
 
     /* Run initial time series, if not already present */
-- 
2.43.0


From 0d3d4c1d176385d4949875785ffee28245d9c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 077/101] fix: correlation functions check their input, use
 fname and time dependent operators

---
 src/ProgCfun.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 6746a82..eee6f6e 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -84,6 +84,8 @@ namespace QDLIB
 
     if ( attr.isPresent("wcycle") ) {
 	attr.GetValue("wcycle", wcycle_);
+	if (wcycle_ < 1)
+	    throw ( EParamProblem ("Write cycle less than one defined") );
     }
 
     log.Header("Correlation function parameters", Logger::Section);
@@ -215,7 +217,7 @@ namespace QDLIB
     CreateMetaData(1, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_1");
+    file.Name(dir_ + fname_ + "_1");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
@@ -335,7 +337,7 @@ namespace QDLIB
     CreateMetaData(2, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_2");
+    file.Name(dir_ + fname_ + "_2");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
@@ -423,13 +425,19 @@ namespace QDLIB
     /* Get defintion for bra */
     ReadKetBra("bra", bra_);
     for (uint i=0; i < bra_.size(); i++) {
-	if (bra_[i] != NULL) bra_[i]->Init(Psi0);
+	if (bra_[i] != NULL) {
+	    bra_[i]->Clock(&master_clock_);
+	    bra_[i]->Init(Psi0);
+	}
     }
 
     /* Get defintion for ket */
     ReadKetBra("ket", ket_);
     for (uint i=0; i < ket_.size(); i++) {
-       if (ket_[i] != NULL) ket_[i]->Init(Psi0);
+       if (ket_[i] != NULL) {
+	    ket_[i]->Clock(&master_clock_);
+	    ket_[i]->Init(Psi0);
+       }
     }
 
     if (bra_.size() == 0){ /* no bra means: <psi|U+ */
@@ -439,7 +447,7 @@ namespace QDLIB
 	    throw (EParamProblem("Last operator in bra definition has to be a propagator"));
     }
 
-    if (ket_.back() == NULL)
+    if (ket_.size() == 0 || ket_.back() == NULL)
 	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
 
     if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (bra_.size() > 0 && bra_[0] != NULL)))
-- 
2.43.0


From 6c19dd3a24de47ce44f7562127b82b812d893946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 078/101] fix: the first bra interactions of a correlation
 function take place at time zero

---
 src/ProgCfun.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index eee6f6e..8d838a1 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -144,6 +144,7 @@ namespace QDLIB
     WaveFunction* psi_t = Psi0->NewInstance();
 
     /* apply operator list before propagating */
+    master_clock_.Begin();
     *psi_t = Psi0;
     ApplySegment(bra ? bra_ : ket_, 0, psi_t);
 
-- 
2.43.0


From dbf24e48d0f26b439b5aade361a7317938feb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 079/101] fix: made-up names of listed operators and wave
 functions are not in use yet

---
 src/GlobalOpList.cpp | 10 ++++++----
 src/GlobalWFList.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 53472c4..352483d 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -51,10 +51,12 @@ namespace QDLIB {
          throw (EIncompatible("GlobalOpList: Operator is NULL!"));
       
        if (strlen(key.c_str()) < 1) { /* If no key is given, we produce an internal key with a serial number */
-          stringstream ss;
-          ss << OP_LIST_ANONYMOUS_PREFIX << Op->Name() << "#" << OpListAnonKey;
-          key = ss.rdbuf()->str();
-          OpListAnonKey++;
+          do {
+             stringstream ss;
+             ss << OP_LIST_ANONYMOUS_PREFIX << Op->Name() << "#" << OpListAnonKey;
+             key = ss.rdbuf()->str();
+             OpListAnonKey++;
+          } while (_OpStore.find(key) != _OpStore.end());
        }
       
       _OpStore[key].Op = Op;
diff --git a/src/GlobalWFList.cpp b/src/GlobalWFList.cpp
index b100339..ea544cf 100644
--- a/src/GlobalWFList.cpp
+++ b/src/GlobalWFList.cpp
@@ -50,10 +50,12 @@ namespace QDLIB
          throw (EIncompatible("GlobalWFList: Wave function is NULL!"));
 
        if (strlen(key.c_str()) < 1) { /* If no key is given, we produce an internal key with a serial number */
-          stringstream ss;
-          ss << WF_LIST_ANONYMOUS_PREFIX << wf->Name() << "#" << _WFListAnonKey;
-          nkey = ss.rdbuf()->str();
-          _WFListAnonKey++;
+          do {
+             stringstream ss;
+             ss << WF_LIST_ANONYMOUS_PREFIX << wf->Name() << "#" << _WFListAnonKey;
+             nkey = ss.rdbuf()->str();
+             _WFListAnonKey++;
+          } while (_WFStore.find(nkey) != _WFStore.end());
        }
 
        Collector<WaveFunction>::Instance()->Register(wf);
-- 
2.43.0


From 2773622672ef3da7ecafbf886f8977c872b2b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 080/101] fix: a label query without room writes nothing

---
 src/GlobalOpList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 352483d..d5410d4 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -94,11 +94,11 @@ namespace QDLIB {
       int n=0;
 
       for (it = _OpStore.begin(); it != _OpStore.end(); it++) {
+         if (n >= max) return n;  /* We simply exit here if capacity limit is reached */
          if ( ((*it).second).label == label ){
             list[n] = ((*it).second).Op;
             n++;
          }
-         if (n == max) return n;  /* We simply exit here if capacity limit is reached */
       }
       
       return n;
-- 
2.43.0


From c7f7d5cfb538e9a9fd45e9bee5ac601e048874fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 081/101] fix: a listed operator is initialised anew for a wave
 function it is not valid for

---
 src/GlobalOpList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index d5410d4..e40cbf4 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -138,7 +138,8 @@ namespace QDLIB {
             ((*it).second).initialized = true;
             found = true;
          } else if (((*it).second).Op == Op && ((*it).second).initialized) { /* Operator exists but already initialized */
-            ((*it).second).Op->Valid(Psi); /* Check if Initialzation is valid */
+            if (! ((*it).second).Op->Valid(Psi)) /* Check if Initialzation is valid */
+               ((*it).second).Op->Init(Psi);
             found = true;
          }
       }
@@ -168,7 +169,8 @@ namespace QDLIB {
          _OpStore[key].Op->Init(Psi);
          _OpStore[key].initialized = true;
       } else {
-         _OpStore[key].Op->Valid(Psi); /* Check if initialization is compatible */
+         if (! _OpStore[key].Op->Valid(Psi)) /* Check if initialization is compatible */
+            _OpStore[key].Op->Init(Psi);
       }
    }
    
-- 
2.43.0


From 37ae5bbe61fd29c6a491dc80d084a2c5efc08fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 082/101] fix: setting a named wave function to itself keeps it

---
 src/GlobalWFList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GlobalWFList.cpp b/src/GlobalWFList.cpp
index ea544cf..5ea769a 100644
--- a/src/GlobalWFList.cpp
+++ b/src/GlobalWFList.cpp
@@ -98,8 +98,8 @@ namespace QDLIB
       if (_WFStore.find(key) == _WFStore.end())
          Add(key, wf, true);
       else {
-         Collector<WaveFunction>::Instance()->Delete(_WFStore[key].wf);
          Collector<WaveFunction>::Instance()->Register(wf);
+         Collector<WaveFunction>::Instance()->Delete(_WFStore[key].wf);
          _WFStore[key].wf = wf;
       }
    }
-- 
2.43.0


From b583444223a2956d8572ffbb5df9ff3943c1f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 083/101] fix: resizing a temporary file records the new size

---
 src/tools/TmpFile.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/TmpFile.h b/src/tools/TmpFile.h
index 83eb651..28bb525 100644
--- a/src/tools/TmpFile.h
+++ b/src/tools/TmpFile.h
@@ -193,9 +193,11 @@ namespace QDLIB {
         }
         
         _mmap = true;
+        _size = size;
         return (T*) _mapbase;
       }
       
+      _size = size;
       return NULL;
    }
    
-- 
2.43.0


From c7146be6abfc57b75567b04e3bdcba08fee03359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 084/101] fix: a temporary file written past its end knows its
 size

---
 src/tools/TmpFile.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/TmpFile.h b/src/tools/TmpFile.h
index 28bb525..88cea3c 100644
--- a/src/tools/TmpFile.h
+++ b/src/tools/TmpFile.h
@@ -283,6 +283,10 @@ namespace QDLIB {
          _open = false;
          throw(EIOError("Write error"));
       }
+      
+      /* The file grows, when written past its end */
+      off_t pos = lseek(_fd, 0, SEEK_CUR);
+      if (count > 0 && pos != -1 && (size_t) pos > _size * sizeof(T)) _size = pos / sizeof(T);
    }
 }
 
-- 
2.43.0


From 4f0f3886fee0d9a5c1d8a1293394743b4a622e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 085/101] fix: a temporary file is removed when an operation on
 it fails

---
 src/tools/TmpFile.h | 46 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/tools/TmpFile.h b/src/tools/TmpFile.h
index 88cea3c..ff576cc 100644
--- a/src/tools/TmpFile.h
+++ b/src/tools/TmpFile.h
@@ -76,17 +76,15 @@ namespace QDLIB {
    {  
       int res = lseek(_fd, size*sizeof(T)-1, SEEK_SET);
       if (res == -1){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Seek error"));
       }
       
       res = write(_fd, "", 1); /* Make a dummy write force the OS to enlarge the file */
       if (res == -1){
-         close(_fd);
-         _open = false;
-         FS::Remove(_fname);
-         throw(EIOError(errno, _fname));
+         EIOError err(errno, _fname);
+         Close();
+         throw(err);
       }         
             
       _size = size;
@@ -146,11 +144,11 @@ namespace QDLIB {
       if (_mmap) {
          _mapbase = mmap(NULL, size*sizeof(T), PROT_WRITE|PROT_READ, MAP_SHARED, _fd, 0);
          
-         if (_mapbase == NULL){
-            close(_fd);
-            _open = false;
-	    FS::Remove(_fname);
-            throw(EIOError(errno, _fname));
+         if (_mapbase == MAP_FAILED){
+            EIOError err(errno, _fname);
+            _mapbase = NULL;
+            Close();
+            throw(err);
          }
          _mmap = true;
          return (T*) _mapbase;
@@ -173,10 +171,9 @@ namespace QDLIB {
       /* Resize */
       int res = ftruncate(_fd, size*sizeof(T));
       if (res != 0){
-         close(_fd);
-         _open = false;
-	 FS::Remove(_fname);
-         throw (EIOError(errno, _fname));
+         EIOError err(errno, _fname);
+         Close();
+         throw (err);
       }
 
        
@@ -186,10 +183,10 @@ namespace QDLIB {
        _mapbase = mremap(_mapbase, oldsize*sizeof(T), size*sizeof(T), MREMAP_MAYMOVE);
         
         if (_mapbase == MAP_FAILED){
-           close(_fd);
-           _open = false;
-	   FS::Remove(_fname);
-           throw(EIOError(errno, _fname));
+           EIOError err(errno, _fname);
+           _mapbase = NULL;
+           Close();
+           throw(err);
         }
         
         _mmap = true;
@@ -212,7 +209,7 @@ namespace QDLIB {
       /* clear mmap */
       if (_mmap)
       {         
-         munmap(_mapbase, _size * sizeof (T));
+         if (_mapbase != NULL) munmap(_mapbase, _size * sizeof (T));
          _mapbase = NULL;
          _mmap = false;
       }
@@ -250,8 +247,7 @@ namespace QDLIB {
    {
       int res = lseek(_fd, pos*sizeof(T), SEEK_SET);
       if (res == -1){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Seek error"));
       }
    }
@@ -264,8 +260,7 @@ namespace QDLIB {
    {
       ssize_t res = read(_fd, (T*) buf, sizeof(T) * count);
       if (res == -1 || (size_t) res != count * sizeof(T) ){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Read error"));
       }
       return (size_t) res;
@@ -279,8 +274,7 @@ namespace QDLIB {
    {
       ssize_t res = write(_fd, (T*) buf, sizeof(T) * count);
       if (res == -1 || (size_t) res != count * sizeof(T) ){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Write error"));
       }
       
-- 
2.43.0


From abc75d9efc647f77a3941edc2000a816ec1db871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 086/101] fix: a temporary file which could not be opened holds
 nothing

---
 src/tools/TmpFile.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/TmpFile.h b/src/tools/TmpFile.h
index ff576cc..5563c36 100644
--- a/src/tools/TmpFile.h
+++ b/src/tools/TmpFile.h
@@ -107,9 +107,6 @@ namespace QDLIB {
       
       if (_open) Close();
      
-      _size = size;
-      _mmap = memmap;
-      
       /* Look for the tmp path */
       if (gp.isPresent("tmpdir")){
          gp.GetValue("tmpdir", tmpdir);
@@ -136,6 +133,8 @@ namespace QDLIB {
          throw (EIOError(errno, _fname));
    
       _open = true;
+      _size = size;
+      _mmap = memmap;
       
       /* Re-size the file */
       if (size > 0) _Upsize(size);
-- 
2.43.0


From 8357bf607ccdc8b5bb90eea5cd41f15877533050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 087/101] fix: eigenfunctions from a propagation find its
 directory without a trailing slash

---
 src/ProgEigen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 89e1c3e..2d40ad9 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -467,6 +467,8 @@ namespace QDLIB
 	log.cout() << "Read Propagation from disk\n\n"; log.flush();
 
 	if (FS::IsDir(_read)) { /* Look for Propagation meta */
+	   if (_read[_read.length()-1] != '/') _read += "/";
+
 	   ParamContainer meta;
 	   string s;
 	   int wcycle;
-- 
2.43.0


From bc6ac947cbd0d069ec5e0fa91ef18cc6485a51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 088/101] fix: eigenfunctions from a propagation use its time
 step, length and norm

---
 src/ProgEigen.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 2d40ad9..c6ceb35 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -524,9 +524,8 @@ namespace QDLIB
 	   throw (EIncompatible("The WFs from the propagation are incompatible with the guess"));
 
 	*_PsiInitial =  tbuf[0];
-	autocorr[0] = 1;
 	log.cout() << "Rebuild autocorrelation\n\n"; log.flush();
-	for (int i=1; i < _MaxSteps; i++) { /* Rebuild the autocorrelation */
+	for (int i=0; i < _MaxSteps; i++) { /* Rebuild the autocorrelation */
 	   autocorr[i] = *(tbuf[i]) * _PsiInitial;
 	}
       }
@@ -535,7 +534,7 @@ namespace QDLIB
       if (_win)
          FunctionGenerator<cVec>::Hann(autocorr);
 
-      Reporter::WriteSpectrum(autocorr, clock->Dt(), _dir+_spectrum);
+      Reporter::WriteSpectrum(autocorr, _dt, _dir+_spectrum);
 
       /* Make FFT and find eigenvalues */
       FFT AcFFT(autocorr, spectrum, true);
@@ -569,7 +568,7 @@ namespace QDLIB
          index = PFind.NextPeak();
 
          /* Calculate energy */
-         double dw = 2*M_PI / (clock->Dt() * double(clock->Steps()));
+         double dw = 2*M_PI / (_dt * double(_MaxSteps));
 
          if (index < _MaxSteps/2)
             energy = double(index) * dw;
-- 
2.43.0


From 0261ad30c2c25a905bfee51ace3382408a52a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 089/101] fix: an energy file which can not be written does not
 abort the program

---
 src/ProgEigen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index c6ceb35..c4499eb 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -59,7 +59,7 @@ namespace QDLIB
       sn = _dir + _ename;
       try {
 	 enfile.open(sn.c_str());
-	 if (!enfile.is_open()) throw;
+	 if (!enfile.is_open()) throw (EIOError(errno, sn));
 
 	 for (int i=0; i < _Nef; i++){
 
-- 
2.43.0


From b09dfef8b7dcffec961f8f712216c156e03ce647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 090/101] fix: eigenfunctions read a propagation by the base
 name of its files

---
 src/ProgEigen.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index c4499eb..65f8254 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -466,7 +466,14 @@ namespace QDLIB
       } else { /* Read propagation from disk */
 	log.cout() << "Read Propagation from disk\n\n"; log.flush();
 
-	if (FS::IsDir(_read)) { /* Look for Propagation meta */
+	bool isdir = false;
+	try {
+	   isdir = FS::IsDir(_read);
+	} catch (EIOError&) {
+	   /* Not there: it is the base name of the files */
+	}
+
+	if (isdir) { /* Look for Propagation meta */
 	   if (_read[_read.length()-1] != '/') _read += "/";
 
 	   ParamContainer meta;
-- 
2.43.0


From 9c1cba9a045103c5738bf132c4e120e0f74e0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 091/101] fix: log output goes to the sink selected when it was
 written

---
 src/tools/Logger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index fc44ef0..ca7f886 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -107,6 +107,9 @@ namespace QDLIB {
 #ifdef HAVE_MPI
       if (MPI::COMM_WORLD.Get_rank() != 0) return;
 #endif
+      flush();
+      if (_ofile.is_open()) FileClose();
+
       _ofile.open(filename.c_str());
       if( _ofile.fail() ) {
 	 string msg;
@@ -136,6 +139,7 @@ namespace QDLIB {
     */
    void Logger::SetRedirect(ostream &redirect)
    {
+      flush();
       _global_out = &redirect;
    }
    
@@ -145,6 +149,7 @@ namespace QDLIB {
    void Logger::ConsoleOutput()
    {
       if ( _ofile.is_open() ) FileClose();
+      flush();
       _global_out = &std::cout;
    }
    
-- 
2.43.0


From aec5262dae3219c6c6dbb8cc83af33086fa174eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 092/101] fix: debug output is judged by the level in force
 when it was written

---
 src/tools/Logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/Logger.h b/src/tools/Logger.h
index f8fefb7..1f8ba74 100644
--- a/src/tools/Logger.h
+++ b/src/tools/Logger.h
@@ -105,7 +105,7 @@ namespace QDLIB {
       /**
        * Turn on/off more detailed output.
        */
-      void Debug(bool on) { _debug = on; }
+      void Debug(bool on) { flush(); _debug = on; }
       
       /**
        * Ask for debug output.
-- 
2.43.0


From 0d0b128056693ebe43c147b31071222d59c60149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 093/101] fix: log headers can be suppressed and can be longer
 than a line

---
 src/tools/Logger.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index ca7f886..3a962aa 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -242,13 +242,19 @@ namespace QDLIB {
          return;
 #endif
       flush();
+      if (_supress) return;
+
+      unsigned long int pad = 0;  /* space on the left and right of the title */
+      if (_line_length > 0 && title.length() < (unsigned long int) _line_length)
+         pad = (_line_length-title.length())/2;
+
       switch(type){
 	 case Chapter:
 	       *_global_out << "\n\n";
 	       for(int i=0; i < _line_length; i++)
 		  *_global_out << "*";
 	       *_global_out << "\n";
-	       for(unsigned long int i=0; i < (_line_length-title.length())/2; i++)
+	       for(unsigned long int i=0; i < pad; i++)
 		  *_global_out << " ";
 	       *_global_out << title<<endl;
 	       for(int i=0; i < _line_length; i++)
@@ -257,11 +263,11 @@ namespace QDLIB {
 	    break;
 	 case Section:
 	       *_global_out << "\n*";
-	       for(unsigned long int i=0; i < (_line_length-title.length())/2-2; i++)
+	       for(unsigned long int i=0; i + 2 < pad; i++)
 		  *_global_out << "*";
 	       *_global_out << " ";
 	       *_global_out << title << " ";
-	       for(unsigned long int i=0; i < (_line_length-title.length())/2-2; i++)
+	       for(unsigned long int i=0; i + 2 < pad; i++)
 		  *_global_out << "*";
 	       *_global_out << "\n\n";
 	    break;
-- 
2.43.0


From a85ca436e6b4a669e515a7b167f311e899340ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 094/101] fix: an empty log message writes nothing

---
 src/tools/Logger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index 3a962aa..e021522 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -38,6 +38,8 @@ namespace QDLIB {
    {
       string sind;
       
+      if (s.empty()) return; /* Nothing to indent */
+
       for (int i=0; i < _indent * LOGGER_INDENT_WIDTH; i++)
       {
 	 sind += " ";
-- 
2.43.0


From d36c83f18efe312cb774122b2f16d52bdf2819ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 095/101] fix: opening a log file keeps the sink selected if it
 fails

---
 src/tools/Logger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index e021522..f5a0f68 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -110,7 +110,10 @@ namespace QDLIB {
       if (MPI::COMM_WORLD.Get_rank() != 0) return;
 #endif
       flush();
-      if (_ofile.is_open()) FileClose();
+      if (_ofile.is_open()) {
+         _ofile.close();
+         if (_global_out == &_ofile) _global_out = &std::cout;
+      }
 
       _ofile.open(filename.c_str());
       if( _ofile.fail() ) {
-- 
2.43.0


From d1dbd294b7f8268045e8c7c2fac517546f272437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 096/101] fix: simple input with characters or formats that are
 not part of the language is rejected

---
 src/simpleXml/simpleXml.ll | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpleXml/simpleXml.ll b/src/simpleXml/simpleXml.ll
index ea3df16..798f657 100644
--- a/src/simpleXml/simpleXml.ll
+++ b/src/simpleXml/simpleXml.ll
@@ -8,7 +8,7 @@ extern int line_num;
 %}
 
 %%
-[#].*$                    yylval.sval=strdup(yytext);  return COMMENT;
+[#].*                     yylval.sval=strdup(yytext);  return COMMENT;
 for                       yylval.sval=strdup(yytext);  return FOR;
 $[a-zA-Z0-9_]+            {
 		             yylval.sval=strdup(yytext+1);
@@ -20,7 +20,7 @@ $\([a-zA-Z0-9_]+\)        {
 		             yylval.sval[yyleng-3] = 0;
 			     return VAREXP;
 			  }
-\%[0-9.fds]+		  yylval.sval=strdup(yytext); return FMT;
+\%[0-9]{0,3}(\.[0-9]{0,3})?[fds]  yylval.sval=strdup(yytext); return FMT;
 [a-zA-Z0-9.\-_:]+         yylval.sval=strdup(yytext); return TOKID;
 \"[a-zA-Z0-9\-.,/_+:;#°% \t~\<\>\^\&]+\"	 {  
 		             yylval.sval=strdup(yytext+1);
@@ -33,6 +33,7 @@ $\([a-zA-Z0-9_]+\)        {
 \"		return QUOTE;
 \~		return CONCAT;
 \n yylloc.first_line++; line_num++;
-[ \t] ;
+[ \t\r] ;
+.		return yytext[0];
 %%
 
-- 
2.43.0


From 59c997f783303a475b4daabba2fe4e26e0e1d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 097/101] fix: a translation of simple input starts from
 scratch and must be complete

---
 src/simpleXml/Simple2Xml.cpp | 37 +++++++++++++++++++-----------------
 src/simpleXml/grammar.yy     | 28 +++++++++++++++++++++++++--
 src/simpleXml/simpleXml.ll   |  1 -
 3 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 414491f..3c420b7 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -14,6 +14,8 @@
 #define CHUNK 1024
 
 int yyparse();
+void yyrestart(FILE *file);
+void ResetTranslation();
 extern FILE* yyin;
 extern FILE* _yyout;
 extern stringstream ss_yy_buf;
@@ -81,26 +83,19 @@ namespace QDSXML {
     */
    void Convert(const string & iname, const string & oname)
    {
-      /* Open input file */
-      yyin = fopen(iname.c_str(), "r");
-      
-      if (!yyin)
-         throw (QDLIB::EIOError(errno, iname) );
-      
+      string buf;
+
+      Parse(iname, buf);
+
       /* Open output file */
       std::ofstream of(oname.c_str(), std::ofstream::trunc);
-      //_yyout = fopen(oname.c_str(), "w");
-      
-      //if (!_yyout)
       if (! of.is_open())
          throw (QDLIB::EIOError(errno, oname) );
 
-      
-      yyparse();
-
-      of << ss_yy_buf.str();
-      //fclose(_yyout);
+      of << buf;
       of.close();
+      if (of.fail())
+         throw (QDLIB::EIOError(errno, oname) );
    }
 
    /**
@@ -109,12 +104,20 @@ namespace QDSXML {
    void Parse(const string &iname, string &buf)
    {
       /* Open input file */
-      yyin = fopen(iname.c_str(), "r");
+      FILE *file = fopen(iname.c_str(), "r");
 
-      if (!yyin)
+      if (!file)
          throw (QDLIB::EIOError(errno, iname) );
 
-      yyparse();
+      ResetTranslation();
+      yyrestart(file);
+      try {
+         yyparse();
+      } catch (...) {
+         fclose(file);
+         throw;
+      }
+      fclose(file);
 
       buf = ss_yy_buf.str();
    }
diff --git a/src/simpleXml/grammar.yy b/src/simpleXml/grammar.yy
index e20c167..db809e8 100644
--- a/src/simpleXml/grammar.yy
+++ b/src/simpleXml/grammar.yy
@@ -122,6 +122,12 @@ void CheckRoot()
 %left CONCAT
 
 %%
+input: lines
+   {
+      if (level != NULL)
+         throw (QDLIB::EParamProblem("Missing closing brace"));
+   }
+;
 lines: 
 	| lines line
 ;
@@ -192,13 +198,15 @@ line:
    |
 	ENDSEC
 	{        
-             indent--;
-             level = level->Parent();
              if (level == NULL) 
              	throw (QDLIB::EParamProblem("Too many closing braces!"));
+             indent--;
+             level = level->Parent();
              if (indent == 0){
                 root->execute();
                 delete root;
+                root = NULL;
+                level = NULL;
              }
 	}
    | error
@@ -220,5 +228,21 @@ strexp:
 	
 %%
 
+/* Forget everything about the previous translation */
+void ResetTranslation()
+{
+   delete root;
+   root = NULL;
+   level = NULL;
+   delete vstr;
+   vstr = NULL;
+   varlist.clear();
+   ss_yy_buf.str("");
+   ss_yy_buf.clear();
+   indent = 0;
+   line_num = 1;
+   yylloc.first_line = 1;
+}
+
 
 
diff --git a/src/simpleXml/simpleXml.ll b/src/simpleXml/simpleXml.ll
index 798f657..722e9f7 100644
--- a/src/simpleXml/simpleXml.ll
+++ b/src/simpleXml/simpleXml.ll
@@ -3,7 +3,6 @@
 #include "stdio.h"
 
 /* Helper for line numbers */
-#define YY_USER_INIT yylloc.first_line=1;
 extern int line_num;
 %}
 
-- 
2.43.0


From 7931be3cae79577867179defeedef2a88e2e591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 098/101] fix: variables of simple input take the whole value,
 in the order of the text

---
 src/simpleXml/SyntacticTreeModel.h | 111 +++++++++++++++++------------
 src/simpleXml/grammar.yy           |  15 ++--
 2 files changed, 76 insertions(+), 50 deletions(-)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index aa9da65..2fbef7e 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -91,20 +91,12 @@ class varstring
          fmtlist.push_back(string(fmt));
       }
 
-      string& GetString()
-      {
-         string *s = new string();
-         for (size_t i = 0; i < seqlist.size(); i++) {
-            if (seqtype[i] == str)
-               *s += seqlist[i];
-            else
-               *s += varlist[seqlist[i]];
-         }
-         return *s;
-      }
-
-      void print()
+      /**
+       * The text with the present values of the variables.
+       */
+      string Text()
       {
+         string text;
 	 char buf[SIMPLEXML_BUF_SIZE];
          for (size_t i = 0; i < seqlist.size(); i++) {
             if (seqtype[i] == str)
@@ -126,9 +118,9 @@ class varstring
                      break;
                }
             }
-            ss_yy_buf << buf;
+            text += buf;
          }
-
+         return text;
       }
 };
 
@@ -167,19 +159,19 @@ class block
       /**
        * print an indentation
        */
-      void Indent()
+      void Indent(ostream &out)
       {
          for (int i=0; i < depth; i++)
-           ss_yy_buf << "   ";
+           out << "   ";
       }
 
       /**
        * Execute/Run the translation.
        */
-      virtual void execute()
+      virtual void execute(ostream &out)
       {
          for (uint i = 0; i < children.size(); i++)
-            children[i]->execute();
+            children[i]->execute(out);
       }
 
       virtual ~block()
@@ -190,6 +182,42 @@ class block
 
 };
 
+/**
+ * Assignment of a variable.
+ */
+class assignment: public block
+{
+   private:
+      string name;
+      varstring value;
+   public:
+      assignment(const char *n, const varstring &v) : name(n), value(v) {}
+
+      virtual void execute(ostream &out)
+      {
+         varlist[name] = value.Text();
+      }
+};
+
+/**
+ * Attribute of an xml node.
+ */
+class attribute: public block
+{
+   private:
+      string name;
+      varstring value;
+   public:
+      attribute(const char *n, const varstring &v) : name(n), value(v) {}
+
+      virtual void execute(ostream &out)
+      {
+         char *es = EscapeString(value.Text().c_str());
+         out << " " << name << "=\"" << es << "\"";
+         free(es);
+      }
+};
+
 /**
  * Block representing a for loop.
  */
@@ -236,16 +264,16 @@ class forloop: public block
          loopvar = var;
       }
 
-      virtual void execute()
+      virtual void execute(ostream &out)
       {
-         Indent();
-         ss_yy_buf << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
+         Indent(out);
+         out << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
          double d = begin;
          for (uint i=0; i <= int(fabs((begin-end)/step)); i++){
             char s[64];
             sprintf(s, "%g", d);
             varlist[loopvar] = s;
-            block::execute();
+            block::execute(out);
             d += step;
          }
       }
@@ -257,8 +285,6 @@ class forloop: public block
 class xmlnode: public block
 {
    private:
-      vector<varstring> attributes;
-      vector<varstring> values;
       string name;
    public:
       xmlnode(char *s) :
@@ -269,31 +295,26 @@ class xmlnode: public block
       {
          name = s;
       }
-      void AddAttribute(varstring &attr, varstring &val)
-      {
-         attributes.push_back(attr);
-         values.push_back(val);
-      }
 
-      virtual void execute()
+      virtual void execute(ostream &out)
       {
-         Indent();
-         ss_yy_buf << "<" << name;
-         for (uint i = 0; i < attributes.size(); i++) {
-            ss_yy_buf << " ";
-            attributes[i].print();
-            ss_yy_buf << "=\"";
-            values[i].print();
-            ss_yy_buf << "\"";
+         stringstream body;
+
+         Indent(out);
+         out << "<" << name;
+         for (uint i = 0; i < children.size(); i++) {
+            if (dynamic_cast<attribute*>(children[i]) != NULL)
+               children[i]->execute(out);
+            else
+               children[i]->execute(body);
          }
 
-         if (children.size() > 0) {
-            ss_yy_buf << ">\n";
-            block::execute();
-            Indent();
-            ss_yy_buf << "</" << name << ">\n";
+         if (! body.str().empty()) {
+            out << ">\n" << body.str();
+            Indent(out);
+            out << "</" << name << ">\n";
          } else
-	    ss_yy_buf << "/>\n";
+            out << "/>\n";
       }
 };
 
diff --git a/src/simpleXml/grammar.yy b/src/simpleXml/grammar.yy
index db809e8..30586a6 100644
--- a/src/simpleXml/grammar.yy
+++ b/src/simpleXml/grammar.yy
@@ -45,6 +45,7 @@ extern "C" {
 
 
 int indent=0;
+char* EscapeString(const char* s);
 #include "SyntacticTreeModel.h"
 
 
@@ -136,9 +137,14 @@ line:
    |
    VARDEF EQUAL strexp
    {
-      varlist[string($1)] = $3;
+      assignment *node = new assignment($1, *vstr);
       delete vstr;
       vstr = NULL;
+      if (level == NULL) {
+         node->execute(ss_yy_buf);
+         delete node;
+      } else
+         level->AddChild(node);
    }
    |
    FOR VARDEF EQUAL TOKID TOKID BEGINSEC
@@ -190,8 +196,7 @@ line:
          err = ss.str();
          yyerror(err.c_str());
       }
-      varstring attr($1);
-      node->AddAttribute(attr, *vstr);
+      node->AddChild(new attribute($1, *vstr));
       delete vstr;
       vstr = NULL;
    }
@@ -203,7 +208,7 @@ line:
              indent--;
              level = level->Parent();
              if (indent == 0){
-                root->execute();
+                root->execute(ss_yy_buf);
                 delete root;
                 root = NULL;
                 level = NULL;
@@ -220,7 +225,7 @@ line:
 ;
 strexp:
 	TOKID { AppendStr($1); }
-	| QSTRING { char* es=EscapeString($1); AppendStr(es);  free(es);}
+	| QSTRING { AppendStr($1); }
 	| VAREXP { AppendVar(strdup(string($1).c_str())); }	
 	| VAREXP FMT { AppendVar(strdup(string($1).c_str()),$2); }
 	| strexp CONCAT strexp { }
-- 
2.43.0


From 8d48d3bbd42085a1ae2dd254a6a7dca16005cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 099/101] fix: loops of simple input run over the values of
 their range

---
 src/simpleXml/SyntacticTreeModel.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index 2fbef7e..1106050 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -268,13 +268,16 @@ class forloop: public block
       {
          Indent(out);
          out << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
-         double d = begin;
-         for (uint i=0; i <= int(fabs((begin-end)/step)); i++){
+         if (step == 0)
+            throw (QDLIB::EParamProblem("The step size of a loop must not be zero"));
+         double last = floor((end - begin) / step + 1e-9);
+         for (double i = 0; i <= last; i++){
             char s[64];
-            sprintf(s, "%g", d);
+            double d = begin + i * step;
+            if (fabs(d) < fabs(step) * 1e-9) d = 0;
+            sprintf(s, "%.10g", d);
             varlist[loopvar] = s;
             block::execute(out);
-            d += step;
          }
       }
 };
-- 
2.43.0


From 503be239581a122167f2f6f54bafe712edd1954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 100/101] fix: undefined variables and malformed numbers of
 simple input are errors, long values are kept

---
 src/simpleXml/SyntacticTreeModel.h | 54 +++++++++++++++++-------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index 1106050..b7f3e4c 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -15,7 +15,7 @@
 #include "tools/Exception.h"
 #include <math.h>
 
-#define SIMPLEXML_BUF_SIZE 1024
+#define SIMPLEXML_BUF_SIZE 2048
 
 map<string, string> varlist;
 
@@ -34,9 +34,9 @@ int Str2Int(string& s){
 
 double Str2Double(const char* s){
    double val;
-   int ret;
-   ret = sscanf(s, "%lf", &val);
-   if (ret <= 0)
+   char *rest;
+   val = strtod(s, &rest);
+   if (rest == s || *rest != 0 || ! std::isfinite(val))
      throw (QDLIB::EParamProblem("Not an floating point number", s));
    return val;
 }
@@ -97,28 +97,34 @@ class varstring
       string Text()
       {
          string text;
-	 char buf[SIMPLEXML_BUF_SIZE];
          for (size_t i = 0; i < seqlist.size(); i++) {
-            if (seqtype[i] == str)
-               snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), seqlist[i].c_str());
-            else {
-               string& s = fmtlist[i];
-               char& fmt = s[s.length() - 1];
-               switch (fmt) {
-                  case 'd':
-                     snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), Str2Int(varlist[seqlist[i]]));
-                     break;
-                  case 'f':
-                    snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), Str2Double(varlist[seqlist[i]]));
-
-                     break;
-                  case 's':
-                  default:
-                    snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), varlist[seqlist[i]].c_str());
-                     break;
-               }
+            if (seqtype[i] == str) {
+               text += seqlist[i];
+               continue;
+            }
+            if (varlist.find(seqlist[i]) == varlist.end())
+               throw (QDLIB::EParamProblem("Variable is not defined: ", seqlist[i]));
+            string& val = varlist[seqlist[i]];
+            string& s = fmtlist[i];
+            if (s == "%s") {
+               text += val;
+               continue;
+            }
+            /* room for the value or any number, width and precision have up to three digits */
+            vector<char> buf(val.length() + SIMPLEXML_BUF_SIZE);
+            switch (s[s.length() - 1]) {
+               case 'd':
+                  snprintf(&buf[0], buf.size(), s.c_str(), Str2Int(val));
+                  break;
+               case 'f':
+                  snprintf(&buf[0], buf.size(), s.c_str(), Str2Double(val));
+                  break;
+               case 's':
+               default:
+                  snprintf(&buf[0], buf.size(), s.c_str(), val.c_str());
+                  break;
             }
-            text += buf;
+            text += &buf[0];
          }
          return text;
       }
-- 
2.43.0


From 2770b1fab7ac2c2c9a843ba549ffebf505172a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 101/101] fix: the input format is recognised beyond the first
 1024 bytes

---
 src/simpleXml/Simple2Xml.cpp | 51 ++++++++++++------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 3c420b7..18f2575 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -30,9 +30,9 @@ namespace QDSXML {
    FileType CheckType(const string & name)
    {
       FILE *file;
-      char buf[CHUNK];
-      char *ind = NULL;
-      size_t size = CHUNK;
+      char chunk[CHUNK];
+      string text;
+      size_t size;
       
       /* Open file */
       file = fopen(name.c_str(), "r");
@@ -40,40 +40,23 @@ namespace QDSXML {
       if (!file)
          throw (QDLIB::EIOError(errno, name) );
       
-      memset( (void*) buf, 0, CHUNK);
-      
-      /* Read a test chunk */
-      size = fread( (void*) buf, 1, CHUNK, file );
-      
-      if ( size == 0 ) {
-         throw (QDLIB::EIOError("Can't read from file: ", name) );
-      }
+      while ( (size = fread( (void*) chunk, 1, CHUNK, file )) > 0 )
+         text.append(chunk, size);
       
       fclose(file);
+
+      if ( text.empty() )
+         throw (QDLIB::EIOError("Can't read from file: ", name) );
       
-      /* Look for file type indications - quick & dirty */
-      bool simple = false;
-      bool xml = false;
-      
-      /* Check for XML */
-//      ind = strstr(buf, "<");
-//      if (ind != NULL) xml = true;
-      ind = strstr(buf, "/>");
-      if (ind != NULL) xml |= true;
-      ind = strstr(buf, "</");
-      if (ind != NULL) xml |= true;
-//      ind = strstr(buf, ">");
-//      if (ind != NULL) xml &= true;
-      
-      if (xml) return XML;
-      
-      /* Check for XML */
-      ind = strstr(buf, "{");
-      if (ind != NULL) simple = true;
-      ind = strstr(buf, "}");
-      if (ind != NULL) simple &= true;
-      
-      if (simple) return SIMPLE;
+      /* XML starts with a tag, the simple format never does */
+      size_t first = text.find_first_not_of(" \t\r\n");
+      if (text.compare(0, 3, "\xef\xbb\xbf") == 0)
+         first = text.find_first_not_of(" \t\r\n", 3);
+
+      if (first != string::npos && text[first] == '<') return XML;
+
+      if (text.find('{') != string::npos && text.find('}') != string::npos)
+         return SIMPLE;
       
       return UNKNOWN;
    }
-- 
2.43.0

