From 390e396ed1ce40061e6117af7545c10318bfc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 01/20] fix: check every flag of addArgument for duplicates,
 not only the first

---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..047b5a0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..0fd6936 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From c9c981eec411ac0d1cc2d4aa72cd84618d1c8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 02/20] fix: removeArguments erased the same name twice when it
 was listed twice

---
 single_include/blet/args.h | 5 ++++-
 src/args.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 047b5a0..3bbf7a9 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2827,7 +2827,10 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        // ignore a name already selected
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index 0fd6936..ad92af7 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -273,7 +273,10 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        // ignore a name already selected
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From 57f1ef54554d54c086f2370202546dd8bdb2f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 03/20] fix: a copied Argument must not own the validator of
 the original

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3bbf7a9..919b74e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3354,7 +3354,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_() {}
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..1050ef0 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,7 +132,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_() {}
-- 
2.43.0


From fdbf81564cdad08d608668841c9e03868a17b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 04/20] fix: keep the list of defaults when an Argument is
 copied by dest

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 919b74e..7bb083a 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3357,7 +3357,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index 1050ef0..9266826 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
-- 
2.43.0


From 23b78b186490d1b5cb3eed6885d0184f0a964ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 05/20] fix: dest on the help or version option left a dangling
 pointer in Args

---
 include/blet/args/argument.h |  5 +++++
 single_include/blet/args.h   | 14 ++++++++++++++
 src/argument.cpp             |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..f3d6aed 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -662,6 +662,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void moveAction_(const Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -692,6 +694,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        moveAction_(argument);
         delete argument;
         *this_ = this;
     }
@@ -727,6 +730,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        moveAction_(argument);
         delete argument;
         *this_ = this;
     }
@@ -799,6 +803,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        moveAction_(argument);
         delete argument;
         *this_ = this;
     }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 7bb083a..2691e1f 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1213,6 +1213,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void moveAction_(const Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1243,6 +1245,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        moveAction_(argument);
         delete argument;
         *this_ = this;
     }
@@ -1278,6 +1281,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        moveAction_(argument);
         delete argument;
         *this_ = this;
     }
@@ -1350,6 +1354,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        moveAction_(argument);
         delete argument;
         *this_ = this;
     }
@@ -3807,6 +3812,15 @@ inline void Argument::clear_() {
     }
 }
 
+inline void Argument::moveAction_(const Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+}
+
 } // namespace args
 
 } // namespace blet
diff --git a/src/argument.cpp b/src/argument.cpp
index 9266826..f608da1 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -585,6 +585,15 @@ void Argument::clear_() {
     }
 }
 
+void Argument::moveAction_(const Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+}
+
 } // namespace args
 
 } // namespace blet
-- 
2.43.0


From bc9f3ad86d1f70db05022a5bfd9acdcab1579a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 06/20] fix: an option valued inside a short cluster was
 counted twice and kept its defaults

---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 2691e1f..aa89496 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2929,8 +2929,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index ad92af7..7516165 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -370,8 +370,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From dffb87ecb26c9f43e0df016ecdcae9772b01c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 07/20] fix: values of a positional argument were appended
 after its defaults

---
 single_include/blet/args.h | 3 +++
 src/args.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index aa89496..e45d62e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3163,12 +3163,14 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -3180,6 +3182,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
diff --git a/src/args.cpp b/src/args.cpp
index 7516165..b06f1e7 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -604,12 +604,14 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -621,6 +623,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
-- 
2.43.0


From 2af54987fc06ff5bed6291b26524472414e56561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 08/20] fix: the default string of grouped arguments
 accumulated at each configuration call

---
 single_include/blet/args.h | 1 +
 src/argument.cpp           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index e45d62e..b831856 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3772,6 +3772,7 @@ inline void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
                     default_ += ", ";
diff --git a/src/argument.cpp b/src/argument.cpp
index f608da1..77a0fdd 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -544,6 +544,7 @@ void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
                     default_ += ", ";
-- 
2.43.0


From d681ec37ed46f1ba9c4a5cc459e54ff6f432426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 09/20] fix: parseArguments kept values of a previous parse

---
 single_include/blet/args.h | 4 ++++
 src/args.cpp               | 1 +
 src/argument.cpp           | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b831856..ac40a57 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2624,6 +2624,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -3797,6 +3798,9 @@ inline void Argument::defaultsConstructor_() {
 }
 
 inline void Argument::clear_() {
+    // restore the default values
+    clear();
+    defaultsConstructor_();
     argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
diff --git a/src/args.cpp b/src/args.cpp
index b06f1e7..279a46a 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/argument.cpp b/src/argument.cpp
index 77a0fdd..b61db68 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -569,6 +569,9 @@ void Argument::defaultsConstructor_() {
 }
 
 void Argument::clear_() {
+    // restore the default values
+    clear();
+    defaultsConstructor_();
     argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
-- 
2.43.0


From cefcad4d14b26efce52a992fc7571d97269a7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 10/20] fix: a rejected help or version action dropped the
 action of another option

---
 single_include/blet/args.h | 11 +++++++++--
 src/argument.cpp           | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ac40a57..9039eab 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3479,12 +3479,19 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
+    // check if the action is already used by another option
+    if (action__ == Action::HELP && args_.helpOption_ != NULL && args_.helpOption_ != this) {
+        throw ArgumentException(nameOrFlags_.front().c_str(), "help action already defined");
+    }
+    if (action__ == Action::VERSION && args_.versionOption_ != NULL && args_.versionOption_ != this) {
+        throw ArgumentException(nameOrFlags_.front().c_str(), "version action already defined");
+    }
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
diff --git a/src/argument.cpp b/src/argument.cpp
index b61db68..6932322 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -250,12 +250,19 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
+    // check if the action is already used by another option
+    if (action__ == Action::HELP && args_.helpOption_ != NULL && args_.helpOption_ != this) {
+        throw ArgumentException(nameOrFlags_.front().c_str(), "help action already defined");
+    }
+    if (action__ == Action::VERSION && args_.versionOption_ != NULL && args_.versionOption_ != this) {
+        throw ArgumentException(nameOrFlags_.front().c_str(), "version action already defined");
+    }
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-- 
2.43.0


From 2fab29ec9a0aba29ac012d969ee5c56c4f830aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 11/20] fix: an action without argument defined twice became a
 simple boolean

---
 single_include/blet/args.h | 6 +++++-
 src/argument.cpp           | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 9039eab..883071f 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3677,7 +3677,7 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+    else if (action_ == Action::STORE_TRUE) {
         nargs_ = 0;
         type_ = Argument::BOOLEAN_OPTION;
     }
@@ -3705,6 +3705,10 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    // without argument
+    else if (nargs_ == 0) {
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index 6932322..ca4121a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -448,7 +448,7 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+    else if (action_ == Action::STORE_TRUE) {
         nargs_ = 0;
         type_ = Argument::BOOLEAN_OPTION;
     }
@@ -476,6 +476,10 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    // without argument
+    else if (nargs_ == 0) {
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From 1a587081f4a4f425086fbe922b5b6a412b24a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 12/20] fix: ValidNumber accepted an empty string

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 883071f..5b0ba14 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4356,7 +4356,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..e1e70af 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From d06a406c6549897a707865b92d81cac1921d8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 13/20] fix: a required positional argument with several values
 was reported as an option

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 5b0ba14..4e123d5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2694,7 +2694,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
diff --git a/src/args.cpp b/src/args.cpp
index 279a46a..403c610 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -135,7 +135,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
-- 
2.43.0


From 1ca1043a9c20d456924d62a0f94738256ec83445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 14/20] fix: a very large nargs overflowed the bound check and
 parsing never ended

---
 single_include/blet/args.h | 10 +++++-----
 src/args.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 4e123d5..b1a7589 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3006,7 +3006,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -3057,7 +3057,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -3077,7 +3077,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -3161,7 +3161,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             argument.clear();
@@ -3189,7 +3189,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
diff --git a/src/args.cpp b/src/args.cpp
index 403c610..3ddf662 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -447,7 +447,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -498,7 +498,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -518,7 +518,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -602,7 +602,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             argument.clear();
@@ -630,7 +630,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
-- 
2.43.0


From 0a10547f4c6995ec15e0643c1aa2efaf73c00608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 15/20] fix: const char* elements of a vector destination
 pointed to freed memory

---
 include/blet/args/argument.h | 24 ++++++++++++++----------
 single_include/blet/args.h   | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index f3d6aed..5576c48 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -238,10 +238,20 @@ inline void strTo(const std::string& str, char (&ret)[Size]) {
 
 class Args;
 
+template<typename T>
+class ArgumentVectorType;
+
+template<typename T>
+class ArgumentVectorVectorType;
+
 class ArgumentElement : public std::vector<ArgumentElement> {
     friend class Args;
     friend class Argument;
     friend class Usage;
+    template<typename T>
+    friend class ArgumentVectorType;
+    template<typename T>
+    friend class ArgumentVectorVectorType;
 
   public:
     ArgumentElement();
@@ -322,12 +332,6 @@ class ArgumentElement : public std::vector<ArgumentElement> {
 template<typename T>
 class ArgumentType;
 
-template<typename T>
-class ArgumentVectorType;
-
-template<typename T>
-class ArgumentVectorVectorType;
-
 /**
  * @brief Argument object
  */
@@ -763,13 +767,13 @@ class ArgumentVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(at(i).at(j).argument_, dest);
                             dest_.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(at(i).argument_, dest);
                         dest_.push_back(dest);
                     }
                 }
@@ -841,13 +845,13 @@ class ArgumentVectorVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(at(i).at(j).argument_, dest);
                             vectorDest.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(at(i).argument_, dest);
                         vectorDest.push_back(dest);
                     }
                     dest_.push_back(vectorDest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b1a7589..8e19cf0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -789,10 +789,20 @@ inline void strTo(const std::string& str, char (&ret)[Size]) {
 
 class Args;
 
+template<typename T>
+class ArgumentVectorType;
+
+template<typename T>
+class ArgumentVectorVectorType;
+
 class ArgumentElement : public std::vector<ArgumentElement> {
     friend class Args;
     friend class Argument;
     friend class Usage;
+    template<typename T>
+    friend class ArgumentVectorType;
+    template<typename T>
+    friend class ArgumentVectorVectorType;
 
   public:
     ArgumentElement();
@@ -873,12 +883,6 @@ class ArgumentElement : public std::vector<ArgumentElement> {
 template<typename T>
 class ArgumentType;
 
-template<typename T>
-class ArgumentVectorType;
-
-template<typename T>
-class ArgumentVectorVectorType;
-
 /**
  * @brief Argument object
  */
@@ -1314,13 +1318,13 @@ class ArgumentVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(at(i).at(j).argument_, dest);
                             dest_.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(at(i).argument_, dest);
                         dest_.push_back(dest);
                     }
                 }
@@ -1392,13 +1396,13 @@ class ArgumentVectorVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(at(i).at(j).argument_, dest);
                             vectorDest.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(at(i).argument_, dest);
                         vectorDest.push_back(dest);
                     }
                     dest_.push_back(vectorDest);
-- 
2.43.0


From e3218f03985797c4990981fd8a37e78c04f6f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 16/20] fix: a rejected nargs or action on a positional
 argument changed it

A positional argument repeated by groups whose nargs(0) was rejected kept the
value 0 and the next parse never ended.
---
 include/blet/args/argument.h | 10 +++++++++-
 single_include/blet/args.h   | 20 ++++++++++++++++++--
 src/argument.cpp             | 10 +++++++++-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 5576c48..bf6f5b4 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -516,8 +516,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
+        const std::size_t oldNargs = nargs_;
         nargs_ = nargs__;
-        typeConstructor_();
+        try {
+            typeConstructor_();
+        }
+        catch (const ArgumentException& /*e*/) {
+            // keep the previous configuration
+            nargs_ = oldNargs;
+            throw;
+        }
         defaultsConstructor_();
         return *this;
     }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 8e19cf0..2621302 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1067,8 +1067,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
+        const std::size_t oldNargs = nargs_;
         nargs_ = nargs__;
-        typeConstructor_();
+        try {
+            typeConstructor_();
+        }
+        catch (const ArgumentException& /*e*/) {
+            // keep the previous configuration
+            nargs_ = oldNargs;
+            throw;
+        }
         defaultsConstructor_();
         return *this;
     }
@@ -3498,8 +3506,16 @@ inline Argument& Argument::action(enum Action::eAction action__) {
     if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
+    const Action::eAction oldAction = action_;
     action_ = action__;
-    typeConstructor_();
+    try {
+        typeConstructor_();
+    }
+    catch (const ArgumentException& /*e*/) {
+        // keep the previous configuration
+        action_ = oldAction;
+        throw;
+    }
     defaultsConstructor_();
     return *this;
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index ca4121a..6ac0396 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -265,8 +265,16 @@ Argument& Argument::action(enum Action::eAction action__) {
     if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
+    const Action::eAction oldAction = action_;
     action_ = action__;
-    typeConstructor_();
+    try {
+        typeConstructor_();
+    }
+    catch (const ArgumentException& /*e*/) {
+        // keep the previous configuration
+        action_ = oldAction;
+        throw;
+    }
     defaultsConstructor_();
     return *this;
 }
-- 
2.43.0


From 8e019d5c451e68e57d311e6471d23165bde617c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 17/20] fix: a program name equal to "--" was taken as the end
 of the options

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 2621302..f54ff83 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2556,7 +2556,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
-- 
2.43.0


From 93eb40f979f3624c528597e2194cc558400512c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 18/20] fix: a line of the usage text was left whole when its
 first word is longer than the width

---
 single_include/blet/args.h | 4 ++++
 src/usage.cpp              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index f54ff83..f5ba662 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4035,6 +4035,10 @@ static inline std::list<std::string> s_multilineWrap(const std::string& str, std
     while (std::getline(iss, line)) {
         while (line.size() >= widthMax) {
             std::size_t spacePos = line.rfind(' ', widthMax);
+            if (spacePos == std::string::npos) {
+                // the first word is longer than the width
+                spacePos = line.find(' ', widthMax);
+            }
             if (spacePos != std::string::npos) {
                 lines.push_back(line.substr(0, spacePos));
                 while (spacePos < line.size() && line.at(spacePos) == ' ') {
diff --git a/src/usage.cpp b/src/usage.cpp
index 4a8f975..6c41b5c 100644
--- a/src/usage.cpp
+++ b/src/usage.cpp
@@ -59,6 +59,10 @@ static inline std::list<std::string> s_multilineWrap(const std::string& str, std
     while (std::getline(iss, line)) {
         while (line.size() >= widthMax) {
             std::size_t spacePos = line.rfind(' ', widthMax);
+            if (spacePos == std::string::npos) {
+                // the first word is longer than the width
+                spacePos = line.find(' ', widthMax);
+            }
             if (spacePos != std::string::npos) {
                 lines.push_back(line.substr(0, spacePos));
                 while (spacePos < line.size() && line.at(spacePos) == ' ') {
-- 
2.43.0


From ba967d0e863030a313f7171b1245594e3af1cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 19/20] fix: a vector destination received an empty value when
 its list argument had none

---
 include/blet/args/argument.h | 25 +++++++++++++++++++++----
 single_include/blet/args.h   | 25 +++++++++++++++++++++----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index bf6f5b4..5458fc7 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -658,6 +658,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isList_() const {
+        switch (type_) {
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -764,7 +781,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -786,7 +803,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -839,7 +856,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isList_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -865,7 +882,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index f5ba662..6fdf05a 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1209,6 +1209,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    inline bool isList_() const {
+        switch (type_) {
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1315,7 +1332,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -1337,7 +1354,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1390,7 +1407,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isList_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1416,7 +1433,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
-- 
2.43.0


From b36beb2f5aa3155bb3f231df479f09323ccb6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 20/20] fix: an option given without words kept reading as the
 text of its defaults

---
 single_include/blet/args.h | 4 ++++
 src/args.cpp               | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 6fdf05a..6bb29af 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3123,6 +3123,10 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
         }
     }
+    if (argument->isList_()) {
+        // the text of the default values is not a value
+        argument->argument_.clear();
+    }
     argument->isExist_ = true;
     ++argument->count_;
 }
diff --git a/src/args.cpp b/src/args.cpp
index 3ddf662..0418bad 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -535,6 +535,10 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
         }
     }
+    if (argument->isList_()) {
+        // the text of the default values is not a value
+        argument->argument_.clear();
+    }
     argument->isExist_ = true;
     ++argument->count_;
 }
-- 
2.43.0

