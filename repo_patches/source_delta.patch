From d96cb622484b910169e24611579aa8a640957056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 01/30] fix: Barrier::wait reads the round number under its
 lock

---
 src/Barrier.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..5d6814d 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -55,9 +55,9 @@ namespace SoDa {
     }
     
     // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
+      auto old_barrier_count = barrier_count; 
       
       waiting++; 
       if(waiting == num_waiters) {
-- 
2.43.0


From 2d437701643c5cdc53586ca8ec3ac5be6381d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 02/30] fix: other waiters of a timed-out barrier get Corrupt,
 as documented

---
 src/Barrier.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 5d6814d..92c07ae 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -58,6 +58,11 @@ namespace SoDa {
     {
       std::unique_lock<std::mutex> lock(mtx);
       auto old_barrier_count = barrier_count; 
+
+      // a broken barrier stays broken. 
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
       
       waiting++; 
       if(waiting == num_waiters) {
@@ -74,7 +79,7 @@ namespace SoDa {
 	bool is_ok = cv.wait_for(lock, 
 				 timeout,
 				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
+				   return (old_barrier_count != barrier_count) || corrupted; 
 				 });
 	
 	// if the barrier hasn't advanced, then we timed out.
@@ -95,6 +100,10 @@ namespace SoDa {
 	    throw Barrier::Timeout(*this, timeout);
 	  }
 	}
+	else if(corrupted) {
+	  // someone else timed out and woke us up. 
+	  throw Barrier::Corrupt(*this);
+	}
       }
     }
   }
-- 
2.43.0


From 9c03608a2fa7d22604056a4e4a9e812dc42455bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 03/30] fix: addI puts no separator between the sign and the
 first digit

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..61f84b5 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,7 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From cdd156b0825dffcb9ebef4f43d376bab62816146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 04/30] fix: addU puts no separators into the padding

---
 src/Format.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 61f84b5..b84902a 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -228,7 +228,8 @@ namespace SoDa {
       std::string newstr; 
       
       int cc = 0; 
-      int sep_lim = valstr.size();
+      // leave the padding alone
+      int sep_lim = valstr.find_last_not_of(' ') + 1;
       
       if(!not_hex) {
 	sep_lim -= 2; 
-- 
2.43.0


From 1ada09137c2b0b613daee5911bd94f4eb2b42b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 05/30] fix: addF in 'e' format finishes for the largest and
 smallest values

---
 src/Format.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Format.cxx b/src/Format.cxx
index b84902a..4670ad6 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -305,6 +305,9 @@ namespace SoDa {
 
     // now restore v_norm to the original magnitude more or less
     v_norm = v_norm * remul;
+    // at the very ends of the range this may go to infinity or zero. 
+    // In that case we can live without the rounding. 
+    if(std::isinf(v_norm) || (v_norm == 0.0)) v_norm = v; 
 
     // ok, now take the log1k
     if(v_norm < 1.0) {
-- 
2.43.0


From 4ae1583e7c1b297e6d1f8f1228e79cb5747f0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 06/30] fix: addF keeps the sign of an infinity

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 4670ad6..afba02e 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -409,7 +409,7 @@ namespace SoDa {
       return *this;
     }
     else if (std::isinf(v)) {
-      insertField(pad("inf", width));
+      insertField(pad((v < 0) ? "-inf" : "inf", width));
       return *this;
     }
     
-- 
2.43.0


From d32bb5687f57006f9e14afa83bfc3655e35c7687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 07/30] fix: addF in 'e' format does not overflow with ten or
 more digits

---
 src/Format.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index afba02e..aab4489 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -335,7 +335,7 @@ namespace SoDa {
   }
   
   void fractionate(double v, unsigned int significant_digits, 
-		   int & int_part, int & frac_part,
+		   int & int_part, std::string & frac_part,
 		   int & int_wid, int & frac_wid) {
     // v is in the range 1 to 1000 - epsilon. 
     // How many digits did it take up?
@@ -365,14 +365,14 @@ namespace SoDa {
     
     //std::cerr << "dfrac_part " << dfrac_part  << "\n";
     // now trim the fractional part. 
-    frac_wid = 0; frac_part = 0;
+    frac_wid = 0; frac_part.clear();
     int sd_left = significant_digits - iw;
     //std::cerr << "sd_left = " << sd_left << "\n";
     while(sd_left > 0) {
       dfrac_part = dfrac_part * 10.0;
       //std::cerr << "New dfrac_part " << dfrac_part << " floor(dfp) " << floor(dfrac_part) 
       //		<< " frac_part " << frac_part << "\n";
-      frac_part = 10 * frac_part + floor(dfrac_part);
+      frac_part.push_back('0' + (int) floor(dfrac_part));
       double junk;
       dfrac_part = modf(dfrac_part, &junk);
       //std::cerr << "new frac_part " << frac_part 
@@ -457,7 +457,8 @@ namespace SoDa {
 	int exp_val = log1k(av, av_norm, significant_digits);
 	//std::cerr << "av_norm " << av_norm << " exp_val " << exp_val << "\n";
 	// now do the fraction and rounding
-	int frac_part, int_part, int_wid, frac_wid;
+	int int_part, int_wid, frac_wid;
+	std::string frac_part;
 	fractionate(av_norm, significant_digits,
 		    int_part, frac_part, 
 		    int_wid, frac_wid);
-- 
2.43.0


From 3b23f4637729321674db096065110816ab8eac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 08/30] fix: addF uses the radix separator in every notation

---
 src/Format.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index aab4489..9e96912 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -494,7 +494,10 @@ namespace SoDa {
       }
     }
 
-    insertField(ss.str());
+    // whatever the notation, the radix point is the separator we were given
+    std::string field = ss.str();
+    std::replace(field.begin(), field.end(), '.', separator);
+    insertField(field);
     return *this;     
   }
 
-- 
2.43.0


From 85c172eed118a5d5576134e74f897ae541de8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 09/30] fix: addF with an unknown notation still prints the
 value

---
 src/Format.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Format.cxx b/src/Format.cxx
index 9e96912..09f1e02 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -425,6 +425,7 @@ namespace SoDa {
       ss << std::scientific << std::setprecision(significant_digits) << v;
       break; 
     case 'g':
+    default:
       // general (who cares what the exponent is format, or how this looks)
       ss.unsetf(std::ios::fixed | std::ios::scientific);
       if(width) ss << std::setw(width);             
-- 
2.43.0


From 83f67cc7be26e6ef4ab5071ff08b60e4eb406958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 10/30] fix: Format_ext takes the same arguments as Format

---
 include/Format.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..e2bd254 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -582,12 +582,12 @@ namespace SoDa {
      * a reference to the derived class.   So do all the other 
      * shadow methods here. 
      */
-    T & addI(int v, unsigned int width = 0, char sep = '\000') { 
-      Format::addI(v, width, sep);
+    T & addI(int v, unsigned int width = 0, char sep = '\000', char fill = '\000') { 
+      Format::addI(v, width, sep, fill);
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From a4acdb62782acd6f40873fcff979aa2749aa8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 11/30] fix: exception texts show all their values

---
 include/MailBox.hxx  | 2 +-
 src/PropertyTree.cxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..3d86b5d 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -193,7 +193,7 @@ namespace SoDa {
   public:
     SubscriptionMismatch(const std::string & should_be
 			 , const std::string & was) : 
-      Exception(should_be, SoDa::Format("caller specified the wrong mailbox")
+      Exception(should_be, SoDa::Format("caller specified the wrong mailbox %0")
 		       .addS(was).str()) {
     }
   }; 
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..ba5437f 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -153,7 +153,7 @@ namespace SoDa {
   PropertyTree::PropNode::BadPropertyType::BadPropertyType(const std::string & path_name, 
 							   const std::string & type_name, 
 							   const std::string & val_string) :
-    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"2\"")
+    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"%2\"")
 	      .addS(path_name)
 	      .addS(val_string)
 	      .addS(type_name)
-- 
2.43.0


From 980f80dc259e74713c777951acfff9b9098afbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 12/30] fix: converting a null mailbox pointer throws
 BadConversion

---
 include/MailBox.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 3d86b5d..157b6b5 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -216,7 +216,7 @@ namespace SoDa {
       if(ret == nullptr) {
 	int st1, st2; 
 	// this demangling is pretty dicey... 
-	throw BadConversion(p->name, abi::__cxa_demangle(typeid(p).name(), 
+	throw BadConversion((p == nullptr) ? std::string("null") : p->name, abi::__cxa_demangle(typeid(p).name(), 
 						nullptr, nullptr, &st1), 
 			    abi::__cxa_demangle(typeid(ret).name(), 
 						nullptr, nullptr, &st2));
-- 
2.43.0


From 53cce3899e63e7d51f41d5cadf5119cfba7dcda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 13/30] fix: ending a subscription that was already removed
 does not terminate the program

---
 include/MailBox.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 157b6b5..04e2924 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -276,7 +276,12 @@ namespace SoDa {
       }
 
       ~SubscriptionCl() {
-	this_mbox->unsubscribe(subscriber_index);
+	try {
+	  this_mbox->unsubscribe(subscriber_index);
+	}
+	catch (MissingSubscriber &) {
+	  // already gone
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0


From 7125e1166db3645499c7d77f35f022e5efb0b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 14/30] fix: getPosArg does not read past the last positional
 argument

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..ad4549e 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if(idx >= pos_arg_vec.size()) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From 65b762dd7daa15d58613762bab9bd1c34d2da27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 15/30] fix: a parse does not depend on how an earlier parse
 ended

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index ad4549e..e2fb2fe 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // nothing carries over from an earlier parse
+    waiting_for_signed = false; 
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From d79329a6ee2101dffc96a3d23f2437c3d1d9ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 16/30] fix: an option at the end of the command line is
 present

---
 src/Options.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index e2fb2fe..dd91369 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -243,6 +243,10 @@ namespace SoDa {
 	}
       }
     }
+    // the last option may be one that never got its value
+    if(arg_p != nullptr) {
+      arg_p->setPresent(); 
+    }
     }
     catch (BadOptValueException & exc) {
       std::cerr << exc.what() << "\n";
-- 
2.43.0


From 0c4142c563b23148adb1ad72e09d96ae6a9fdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 17/30] fix: an empty boolean value is false

---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..854f899 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -515,7 +515,7 @@ posargs =
 	if(vs.size() == 0) {
 	  v = false;
 	}
-	if((vs == "TRUE") || (vs[0] == 'T')) {
+	else if((vs == "TRUE") || (vs[0] == 'T')) {
 	  v = true;
 	}
 	else if((vs == "FALSE") || (vs[0] == 'F')){
-- 
2.43.0


From 02e43c16727b33f7abe331197b2fc6c2240fef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 18/30] fix: an option's variable never gets a value that was
 rejected

---
 include/Options.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 854f899..c76075a 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -566,10 +566,12 @@ posargs =
       }
       
       bool setVal(const std::string & vstr) {
-	setValBase(*val_p, vstr);
-	if (!test_func(*val_p)) {
+	T v; 
+	setValBase(v, vstr);
+	if (!test_func(v)) {
 	  throw BadOptValueException(long_name, vstr, err_msg); 	  
 	}
+	*val_p = v; 
 	return setPresent(); 
       }
 
-- 
2.43.0


From e54ae60d2e928ddfd1ccd9b57cb024e40be29f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 19/30] fix: squashSpaces does not look at the ends of an empty
 string

---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..ad21f63 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);
+    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From ce5bbdda67851f9f89ebbbd7794ad26b9bb33053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 20/30] fix: Utils.hxx can be included twice

---
 include/Utils.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Utils.hxx b/include/Utils.hxx
index d0d8874..6d4e296 100644
--- a/include/Utils.hxx
+++ b/include/Utils.hxx
@@ -1,4 +1,5 @@
 #pragma once
+#pragma once
 /*
 BSD 2-Clause License
 
-- 
2.43.0


From 2339cf55a04f814127428c74d9002173df1f2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 21/30] fix: property lookup descends into the named node

---
 src/PropertyTree.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index ba5437f..d63ec98 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -73,8 +73,9 @@ namespace SoDa {
       return this; 
     }
     else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+	auto child = dictionary[pathlist.front()]; 
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return child->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From 9c609be3090fee40a57667c152a9ae2e604fdc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 22/30] fix: PropertyTree::get throws for a missing property
 only if asked to

---
 include/PropertyTree.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..0b1126e 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,6 +133,7 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
+	if(!throw_exception) return false; 
 	throw PropNode::PropertyNotFound(pathname); 
       }
       
-- 
2.43.0


From 0fa188aa1dd1a70d3dce6d4b2f2f6ae47ec961b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 23/30] fix: a string property is read whole, not just its
 first word

---
 include/PropertyTree.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 0b1126e..fd1b14c 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -264,6 +264,21 @@ namespace SoDa {
   protected:
     PropNode * root; 
   };
+
+  /**
+   * @brief A string property is all of its text, blanks and all. 
+   */
+  template<> inline bool PropertyTree::PropNode::get<std::string>(std::string & v, 
+								  bool throw_exception) {
+    if(!is_terminal) {
+      if(throw_exception) {
+	throw BadPropertyType(getPathName(), typeid(v).name(), val_string);
+      }
+      return false; 
+    }
+    v = val_string; 
+    return true; 
+  }
     
 }
 
-- 
2.43.0


From 3448680efa7e36722376ebb5345bc1d00f658f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 24/30] fix: malformed YAML is reported as BadSyntax, as
 documented

---
 include/PropertyTree.hxx | 5 +++++
 src/PropertyTree.cxx     | 5 +++++
 src/PropertyTreeYAML.cxx | 9 ++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index fd1b14c..65b4890 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -261,6 +261,11 @@ namespace SoDa {
       FileNotFound(const std::string & fname);
     }; 
 
+    class BadSyntax : public SoDa::Exception {
+    public:
+      BadSyntax(const std::string & problem);
+    }; 
+
   protected:
     PropNode * root; 
   };
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index d63ec98..740498b 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -144,6 +144,11 @@ namespace SoDa {
 	      .addS(str).str())
   {
   }
+  PropertyTree::BadSyntax::BadSyntax(const std::string & str) :
+    Exception(SoDa::Format("PropertyTree::BadSyntax \"%0\"")
+	      .addS(str).str())
+  {
+  }
   PropertyTree::PropNode::PropertyNotFound::PropertyNotFound(const std::string & str) :
     Exception(SoDa::Format("PropertyTree::PropNode::PropertyNotFound \"%0\"")
 	      .addS(str)
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..0744283 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -46,13 +46,16 @@ namespace SoDa {
     
     try {
       TopNode = YAML::LoadFile(filename);
+
+      // now recursively create the tree
+      fillRecurse(TopNode, root);
     }
     catch(YAML::BadFile & e) {
       throw PropertyTree::FileNotFound(e.what());
     }
-    
-    // now recursively create the tree
-    fillRecurse(TopNode, root);
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(e.what());
+    }
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0


From fe78b6f2087aec40bfed512a6201873eeac16f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 25/30] fix: a YAML sequence is kept under its own key

---
 src/PropertyTreeYAML.cxx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 0744283..f0554be 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -68,6 +68,18 @@ namespace SoDa {
       prop->prop_list.push_back(pnp); 
       return; 
     }
+    if(node.IsSequence()) {
+      // scalars go straight into the list, anything else gets its own node
+      for(auto n : node) {
+	auto pnp = prop; 
+	if(!n.IsScalar()) {
+	  pnp = new PropertyTree::PropNode(prop, "", false);
+	  prop->prop_list.push_back(pnp);
+	}
+	fillRecurse(n, pnp);
+      }
+      return; 
+    }
     for(YAML::const_iterator it = node.begin(); 
 	it != node.end(); 
 	++it) {
@@ -89,13 +101,9 @@ namespace SoDa {
       }
       
       if(it->second.IsSequence()) {
-	// we aren't really going to do anything.  Just
-	// pass it along, as all prop tree nodes are lists or dictionaries
-	// or both
-	
-	for(auto n : it->second) {
-	  fillRecurse(n, prop);
-	}
+	auto pnp = new PropertyTree::PropNode(prop, "", false);
+	prop->dictionary[it->first.as<std::string>()] = pnp;
+	fillRecurse(YAML::Node (it->second), pnp);
       }
     }
   }
-- 
2.43.0


From d2cefaa5e443b7dbdd2b49ed597e88e4984b732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 26/30] fix: a key=value item sets its own key to its whole
 value

---
 src/Options.cxx | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index dd91369..6922231 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -315,26 +315,44 @@ namespace SoDa {
   bool Options::parseKeyValue(const std::list<std::string> & l_kvp) {
     // for each item in the kvp list,
     // trim the item,
-    // add the pair to a token list
-    std::list<std::string> tknlist; 
-    
+    // and hand the value to the option named by the key
+    try {
     for(auto kv_a : l_kvp) {
       auto kv = SoDa::squashSpaces(kv_a);
       
-      // now we've got a key=value pair.  Split that at the =
-      auto kvp = SoDa::split(kv, std::string("="));
-      auto key = kvp.front();
-      auto value = kvp.back();
+      // now we've got a key=value pair.  Split that at the first =
+      auto eq_pos = kv.find('=');
+      auto key = kv.substr(0, eq_pos);
 
-      // ok. now we're going to re-use some stuff from the "parse a
-      // command line" functions
-      key = "--" +  key;
+      if(key == "help") {
+	printHelp(std::cerr);
+	return false; 
+      }
 
-      tknlist.push_back(key);
-      tknlist.push_back(value);
       // find the option name
+      auto arg_p = findOpt(key);
+      if(arg_p == nullptr) {
+	throw BadOptionNameException(key); 
+      }
+
+      if(eq_pos == std::string::npos) {
+	arg_p->setPresent();
+      }
+      else {
+	arg_p->setVal(kv.substr(eq_pos + 1));
+      }
+    }
+    }
+    catch (BadOptValueException & exc) {
+      std::cerr << exc.what() << "\n";
+      return false; 
+    }
+    catch (BadOptionNameException & exc) {
+      std::cerr << exc.what() << "\n";
+      printHelp(std::cerr);
+      return false; 
     }
 
-    return parse(tknlist);    
+    return true;
   }
 }
-- 
2.43.0


From 3ec226f3d49f048ea3441c82cfe71ebda17bd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 27/30] fix: MailBoxBase::convert leaked the two demangled
 names of its exception

---
 include/MailBox.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 04e2924..428e1bb 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -6,6 +6,7 @@
 #include <mutex>
 #include <typeinfo>
 #include <cxxabi.h>
+#include <cstdlib>
 
 #include "Format.hxx"
 #include "Exception.hxx"
@@ -216,10 +217,12 @@ namespace SoDa {
       if(ret == nullptr) {
 	int st1, st2; 
 	// this demangling is pretty dicey... 
-	throw BadConversion((p == nullptr) ? std::string("null") : p->name, abi::__cxa_demangle(typeid(p).name(), 
-						nullptr, nullptr, &st1), 
-			    abi::__cxa_demangle(typeid(ret).name(), 
-						nullptr, nullptr, &st2));
+	// the demangled names are ours to free
+	std::unique_ptr<char, void (*)(void *)> from_type(abi::__cxa_demangle(typeid(p).name(), 
+									      nullptr, nullptr, &st1), std::free);
+	std::unique_ptr<char, void (*)(void *)> to_type(abi::__cxa_demangle(typeid(ret).name(), 
+									    nullptr, nullptr, &st2), std::free);
+	throw BadConversion((p == nullptr) ? std::string("null") : p->name, from_type.get(), to_type.get());
       }
       return ret; 
     }
-- 
2.43.0


From 2d48d13d23850f7e7b1acab3d1f79f18ff881605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 28/30] fix: the nodes of a property tree were never destroyed

---
 include/PropertyTree.hxx | 12 ++++++++++++
 src/PropertyTree.cxx     | 12 ++++++++++--
 src/PropertyTreeYAML.cxx | 10 +++++-----
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 65b4890..df61b99 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -7,6 +7,7 @@
 #include <ios>
 #include <map>
 #include <list>
+#include <memory>
 #include <typeinfo>
 #include "Exception.hxx"
 #include "Format.hxx"
@@ -267,7 +268,18 @@ namespace SoDa {
     }; 
 
   protected:
+    /**
+     * @brief make a node that lives as long as this tree or any copy of it
+     */
+    PropNode * newNode(PropNode * parent, 
+		       const std::string & val_string, 
+		       bool is_terminal); 
+
     PropNode * root; 
+
+  private:
+    /// owns every node of the tree; copies of a tree share its nodes
+    std::shared_ptr<std::list<std::shared_ptr<PropNode>>> nodes; 
   };
 
   /**
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 740498b..63b9fdf 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -33,8 +33,16 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 
 namespace SoDa {
-  PropertyTree::PropertyTree() {
-    root = new PropNode(nullptr, "root", false);
+  PropertyTree::PropertyTree() : nodes(std::make_shared<std::list<std::shared_ptr<PropNode>>>()) {
+    root = newNode(nullptr, "root", false);
+  }
+
+  PropertyTree::PropNode * PropertyTree::newNode(PropNode * parent, 
+						 const std::string & val_string, 
+						 bool is_terminal) {
+    auto ret = std::make_shared<PropNode>(parent, val_string, is_terminal);
+    nodes->push_back(ret);
+    return ret.get();
   }
 
   std::string PropertyTree::PropNode::getPathName() {
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index f0554be..29e0289 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -61,7 +61,7 @@ namespace SoDa {
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
 				     PropertyTree::PropNode * prop) {
     if(node.IsScalar()) {
-      auto pnp = new PropertyTree::PropNode(prop, 
+      auto pnp = newNode(prop, 
 					    node.as<std::string>(), 
 					      true);
 	
@@ -73,7 +73,7 @@ namespace SoDa {
       for(auto n : node) {
 	auto pnp = prop; 
 	if(!n.IsScalar()) {
-	  pnp = new PropertyTree::PropNode(prop, "", false);
+	  pnp = newNode(prop, "", false);
 	  prop->prop_list.push_back(pnp);
 	}
 	fillRecurse(n, pnp);
@@ -87,13 +87,13 @@ namespace SoDa {
       if(it->second.IsMap()) {
 	// New node. It will have children
 	// that are either maps or lists or terminals.
-	auto pnp = new PropertyTree::PropNode(prop, "", false);
+	auto pnp = newNode(prop, "", false);
 	prop->dictionary[it->first.as<std::string>()] = pnp;
 	fillRecurse(YAML::Node (it->second), pnp);
       }
 
       if(it->second.IsScalar()) {
-	auto pnp = new PropertyTree::PropNode(prop, 
+	auto pnp = newNode(prop, 
 					      it->second.as<std::string>(), 
 					      true);
 	
@@ -101,7 +101,7 @@ namespace SoDa {
       }
       
       if(it->second.IsSequence()) {
-	auto pnp = new PropertyTree::PropNode(prop, "", false);
+	auto pnp = newNode(prop, "", false);
 	prop->dictionary[it->first.as<std::string>()] = pnp;
 	fillRecurse(YAML::Node (it->second), pnp);
       }
-- 
2.43.0


From 535900ff1b15261b35bd1670e46981994db41e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 29/30] fix: deleting a property tree through its base class
 was undefined

---
 include/PropertyTree.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index df61b99..1e31e2d 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -83,6 +83,8 @@ namespace SoDa {
      */
     PropertyTree();
 
+    /// trees may be deleted through this class
+    virtual ~PropertyTree() = default;
 
 
     /**
-- 
2.43.0


From 4f07dbec4e6aaed43dedc8587c46c1f800626610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:36 +0000
Subject: [PATCH 30/30] fix: PropNode::getPathName gives the names that lead to
 a node

---
 src/PropertyTree.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 63b9fdf..1b34bc1 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -48,7 +48,15 @@ namespace SoDa {
   std::string PropertyTree::PropNode::getPathName() {
     std::string ret;
     if(parent != nullptr) {
-      ret = parent->getPathName() + ":" + val_string;
+      ret = parent->getPathName();
+      // an element of a list goes by the name of the list
+      for(const auto & a : parent->dictionary) {
+	if(a.second == this) {
+	  if(parent->parent != nullptr) ret += ":";
+	  ret += a.first;
+	  break; 
+	}
+      }
     }
     
     return ret; 
-- 
2.43.0

