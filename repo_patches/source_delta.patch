From 8568811d111b5ae5f2644541ec15e41038a10ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:22 +0000
Subject: [PATCH 01/38] fix: keep method ids of unstubbed slots distinct from
 the destructor id after Reset

Reset refilled the slot-id table with zeros, and zero is the id of a stubbed
destructor. Stubbing the destructor after a Reset made the lookup stop at the
first unstubbed slot and dereference a null handler.
---
 include/mockutils/DynamicProxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From 45c861819f5ee5cfcd5dd1a588ceb8cc97fb6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:22 +0000
Subject: [PATCH 02/38] fix: make AtLeast(0) accept any number of matches

At-least counts are stored as negative numbers, so AtLeast(0) was treated as
Exactly(0) and failed as soon as the pattern occurred.
---
 include/fakeit/SequenceVerificationProgress.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..9a42383 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                // "at least" is coded as a negative count, so zero needs its own representation.
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From b90c778fb027cb6e56299eee295e228c7322a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:22 +0000
Subject: [PATCH 03/38] fix: do not mark invocations of an incomplete pattern
 match as verified

When a pattern with several sequences matched only partially at the end of the
history, the invocations of its leading sequences were still marked as
verified, and VerifyNoOtherInvocations passed although they never belonged to
a complete match.
---
 include/fakeit/MatchAnalysis.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..20a5e11 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,14 +46,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
-- 
2.43.0


From 7bab48efa0989083e16f8d4da42c97a13bc118f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:22 +0000
Subject: [PATCH 04/38] fix: consume recorded actions correctly when they are
 re-entered or have a zero count

An action that called back into the mocked method was picked again by the
nested call. A single-shot action then never finished, and a quantified one
removed the action after it from the queue. An action recorded with 0_Times
also never finished.
---
 include/fakeit/Action.hpp         |  2 +-
 include/fakeit/ActionSequence.hpp | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/fakeit/Action.hpp b/include/fakeit/Action.hpp
index 7173a4b..22defc7 100644
--- a/include/fakeit/Action.hpp
+++ b/include/fakeit/Action.hpp
@@ -46,7 +46,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..1cfcb7e 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -39,15 +39,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+            // An action that is still running (and calls back into this method) may already be done.
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -77,6 +75,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+            // The last action (NoMoreRecordedAction) is never done.
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
-- 
2.43.0


From 82741c54ac890de42d38f6c1cfe0695fe51a6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:49 +0000
Subject: [PATCH 05/38] fix: report unmocked calls of methods that return
 objects by value

The handler of unmocked methods used its 'this' to find the mock. When the
method returns an object in memory the first argument is the address of the
result, so the handler dereferenced garbage and crashed instead of reporting
an unexpected method call.
---
 include/fakeit/MockImpl.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..f2b70c0 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -7,6 +7,7 @@
  */
 #pragma once
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -35,6 +36,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -270,10 +272,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        // The context used to report calls of unmocked methods. It is shared by all the mocks of the same class
+        // because unmocked() can't tell which mock was called, see below.
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+        // Replaces methods of any signature. Do not use 'this' here, it is not valid if the replaced method returns
+        // its result in memory (through an hidden argument).
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
-- 
2.43.0


From 435d6a4e576cd3b43f25fdd53d0ff2d4f4f92798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:49 +0000
Subject: [PATCH 06/38] fix: use the custom event formatter in the Catch
 integration

The Catch adapter was bound to the built-in formatter, so a formatter set with
setCustomEventFormatter was ignored.
---
 config/catch/CatchFakeit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/catch/CatchFakeit.hpp b/config/catch/CatchFakeit.hpp
index 616a369..1261961 100644
--- a/config/catch/CatchFakeit.hpp
+++ b/config/catch/CatchFakeit.hpp
@@ -92,7 +92,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
-- 
2.43.0


From 4bea2aa0a3d7676c25bb51b7e05f78a32c15979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:49 +0000
Subject: [PATCH 07/38] fix: keep data members when only the invocation history
 is cleared

ClearInvocationHistory zeroed the data members of the mock. Stubbed members
lost their value, and those that own resources leaked.
---
 include/fakeit/MockImpl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index f2b70c0..1393422 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -74,7 +74,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
-- 
2.43.0


From 0a97d129948ff5ff16778e42745b3c5ae0f6ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:49 +0000
Subject: [PATCH 08/38] fix: destroy the previous value when a data member is
 stubbed again

Stubbing the same data member twice constructed the second value over the
first one without destroying it. Both were then destroyed with the mock, at
the same address.
---
 include/mockutils/DynamicProxy.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index f7cea28..6a0e922 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -9,6 +9,8 @@
 
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -153,10 +155,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            // If the member is already stubbed, its current value has to be destroyed first.
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -211,7 +213,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
         //
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
-- 
2.43.0


From 5768dc716ad55a6b63179b5272f05411db42f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:29 +0000
Subject: [PATCH 09/38] fix: regenerate the single headers

Brings the generated single headers up to date with the corrected sources.
---
 single_header/boost/fakeit.hpp      | 56 ++++++++++++++++++++--------
 single_header/catch/fakeit.hpp      | 58 ++++++++++++++++++++---------
 single_header/cute/fakeit.hpp       | 56 ++++++++++++++++++++--------
 single_header/doctest/fakeit.hpp    | 56 ++++++++++++++++++++--------
 single_header/gtest/fakeit.hpp      | 56 ++++++++++++++++++++--------
 single_header/mettle/fakeit.hpp     | 56 ++++++++++++++++++++--------
 single_header/mstest/fakeit.hpp     | 56 ++++++++++++++++++++--------
 single_header/nunit/fakeit.hpp      | 56 ++++++++++++++++++++--------
 single_header/qtest/fakeit.hpp      | 56 ++++++++++++++++++++--------
 single_header/standalone/fakeit.hpp | 56 ++++++++++++++++++++--------
 single_header/tpunit/fakeit.hpp     | 56 ++++++++++++++++++++--------
 11 files changed, 441 insertions(+), 177 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 06536e0..c386fcc 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.200164
+ *  Generated: 2026-11-16 01:14:49.773435
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1240,12 +1240,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::BoostTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6074,7 +6077,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6134,10 +6137,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6192,7 +6195,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7467,7 +7470,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8031,15 +8034,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8069,6 +8070,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8585,6 +8594,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8620,7 +8630,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8818,10 +8827,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9379,14 +9397,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9696,6 +9716,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 1f35224..e1c0c2c 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.219617
+ *  Generated: 2026-11-16 01:14:49.746141
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1250,7 +1250,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
@@ -1278,12 +1278,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::CatchFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6112,7 +6115,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6172,10 +6175,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6230,7 +6233,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7505,7 +7508,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8069,15 +8072,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8107,6 +8108,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8623,6 +8632,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8658,7 +8668,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8856,10 +8865,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9417,14 +9435,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9720,6 +9740,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 6465020..dd2cd0f 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.238909
+ *  Generated: 2026-11-16 01:14:49.606019
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1205,12 +1205,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::CuteFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6039,7 +6042,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6099,10 +6102,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6157,7 +6160,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7432,7 +7435,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -7996,15 +7999,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8034,6 +8035,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8550,6 +8559,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8585,7 +8595,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8783,10 +8792,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9344,14 +9362,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9661,6 +9681,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 7facb68..a55ec60 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.257964
+ *  Generated: 2026-11-16 01:14:49.664658
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1233,12 +1233,15 @@ namespace fakeit
 static fakeit::DefaultFakeit& Fakeit = fakeit::DoctestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6067,7 +6070,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6127,10 +6130,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6185,7 +6188,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7460,7 +7463,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8024,15 +8027,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8062,6 +8063,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8578,6 +8587,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8613,7 +8623,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8811,10 +8820,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9372,14 +9390,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9675,6 +9695,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 3fcd6a7..322b078 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.277044
+ *  Generated: 2026-11-16 01:14:49.579039
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1205,12 +1205,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::GTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6039,7 +6042,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6099,10 +6102,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6157,7 +6160,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7432,7 +7435,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -7996,15 +7999,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8034,6 +8035,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8550,6 +8559,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8585,7 +8595,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8783,10 +8792,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9344,14 +9362,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9661,6 +9681,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 31b4f52..b907d1d 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.296193
+ *  Generated: 2026-11-16 01:14:49.692504
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1227,12 +1227,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::MettleFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6061,7 +6064,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6121,10 +6124,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6179,7 +6182,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7454,7 +7457,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8018,15 +8021,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8056,6 +8057,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8572,6 +8581,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8607,7 +8617,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8805,10 +8814,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9366,14 +9384,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9669,6 +9689,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 8f5b59e..3eac4bd 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.315649
+ *  Generated: 2026-11-16 01:14:49.827253
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1229,12 +1229,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::MsTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6063,7 +6066,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6123,10 +6126,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6181,7 +6184,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7456,7 +7459,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8020,15 +8023,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8058,6 +8059,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8574,6 +8583,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8609,7 +8619,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8807,10 +8816,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9368,14 +9386,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9685,6 +9705,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 31b5322..947b9f9 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.334994
+ *  Generated: 2026-11-16 01:14:49.718960
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1212,12 +1212,15 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::NUnitFakeit::getInstance();
 static fakeit::MethodInfo& scopeFixer = fakeit::UnknownMethod::instance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6046,7 +6049,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6106,10 +6109,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6164,7 +6167,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7439,7 +7442,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8003,15 +8006,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8041,6 +8042,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8557,6 +8566,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8592,7 +8602,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8790,10 +8799,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9351,14 +9369,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9668,6 +9688,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 51d2998..5507b23 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.353913
+ *  Generated: 2026-11-16 01:14:49.854292
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1213,12 +1213,15 @@ private:
 static fakeit::DefaultFakeit& Fakeit = fakeit::QTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6047,7 +6050,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6107,10 +6110,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6165,7 +6168,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7440,7 +7443,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8004,15 +8007,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8042,6 +8043,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8558,6 +8567,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8593,7 +8603,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8791,10 +8800,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9352,14 +9370,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9669,6 +9689,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 0484739..74740ef 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.372950
+ *  Generated: 2026-11-16 01:14:49.800487
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1281,12 +1281,15 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::StandaloneFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6115,7 +6118,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6175,10 +6178,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6233,7 +6236,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7508,7 +7511,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8072,15 +8075,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8110,6 +8111,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8626,6 +8635,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8661,7 +8671,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8859,10 +8868,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9420,14 +9438,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9723,6 +9743,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index a56df19..f147f72 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.391928
+ *  Generated: 2026-11-16 01:14:49.633017
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1264,12 +1264,15 @@ private:
 static fakeit::DefaultFakeit& Fakeit = fakeit::TpUnitFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
 #include <memory>
 #undef max
 #include <functional>
+#include <map>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -6098,7 +6101,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6158,10 +6161,10 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr, initargs...));
         }
 
         template<typename DataType>
@@ -6216,7 +6219,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
@@ -7491,7 +7494,7 @@ namespace fakeit {
         }
 
         virtual bool isDone() override {
-            return times == 0;
+            return times <= 0;
         }
 
     private:
@@ -8055,15 +8058,13 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                retireDoneActions();
             };
             Finally onExit(finallyClause);
             return action.invoke(args);
@@ -8093,6 +8094,14 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        void retireDoneActions() {
+
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
@@ -8609,6 +8618,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedCallsContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8644,7 +8654,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8842,10 +8851,19 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+
+
+        static std::atomic<FakeitContext *> &unmockedCallsContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *unmockedCallsContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9403,14 +9421,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> patternInvocations;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, patternInvocations, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), patternInvocations.begin(), patternInvocations.end());
             end = startSearchIndex;
             return true;
         }
@@ -9706,6 +9726,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From 479ad12c148cde8325e04f2a0d094dc33541e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:35 +0000
Subject: [PATCH 10/38] fix: ReturnAndSet leaves the arguments it does not set
 alone

The arguments behind the last value given to ReturnAndSet were passed on by
value. By-value arguments were moved away from the recorded call, so later
verifications saw an empty value, and reference arguments of an abstract or
not copyable type did not compile.
---
 include/fakeit/StubbingProgress.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index a93252e..aee34c9 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -427,7 +427,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -469,7 +469,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
-- 
2.43.0


From 1ac03ce3902808489f1f047ec89cede7a6163d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:29 +0000
Subject: [PATCH 11/38] fix: ReturnAndSet keeps copies of the values to set

Values given as variables were kept by reference, so a stubbing that outlived
the variable wrote whatever the memory held by then.
---
 include/fakeit/StubbingProgress.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index aee34c9..cdb5c53 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -190,7 +190,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -333,7 +333,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -371,7 +371,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -496,7 +496,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
-- 
2.43.0


From f48379b3bca87f16b3d0ec65b916914e3a2610d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:18 +0000
Subject: [PATCH 12/38] fix: regenerate the single headers

Brings the generated single headers up to date with the ReturnAndSet corrections.
---
 single_header/boost/fakeit.hpp      | 14 +++++++-------
 single_header/catch/fakeit.hpp      | 14 +++++++-------
 single_header/cute/fakeit.hpp       | 14 +++++++-------
 single_header/doctest/fakeit.hpp    | 14 +++++++-------
 single_header/gtest/fakeit.hpp      | 14 +++++++-------
 single_header/mettle/fakeit.hpp     | 14 +++++++-------
 single_header/mstest/fakeit.hpp     | 14 +++++++-------
 single_header/nunit/fakeit.hpp      | 14 +++++++-------
 single_header/qtest/fakeit.hpp      | 14 +++++++-------
 single_header/standalone/fakeit.hpp | 14 +++++++-------
 single_header/tpunit/fakeit.hpp     | 14 +++++++-------
 11 files changed, 77 insertions(+), 77 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index c386fcc..4b81da4 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.773435
+ *  Generated: 2026-11-16 02:05:12.707539
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7702,7 +7702,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7845,7 +7845,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7883,7 +7883,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7939,7 +7939,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7981,7 +7981,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -8004,7 +8004,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index e1c0c2c..c1b1952 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.746141
+ *  Generated: 2026-11-16 02:05:12.681379
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7740,7 +7740,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7883,7 +7883,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7921,7 +7921,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7977,7 +7977,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -8019,7 +8019,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -8042,7 +8042,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index dd2cd0f..a29d3d3 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.606019
+ *  Generated: 2026-11-16 02:05:12.547992
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7667,7 +7667,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7810,7 +7810,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7848,7 +7848,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7904,7 +7904,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7946,7 +7946,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7969,7 +7969,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index a55ec60..ad81750 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.664658
+ *  Generated: 2026-11-16 02:05:12.602207
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7695,7 +7695,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7838,7 +7838,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7876,7 +7876,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7932,7 +7932,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7974,7 +7974,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7997,7 +7997,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 322b078..ca45195 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.579039
+ *  Generated: 2026-11-16 02:05:12.521477
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7667,7 +7667,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7810,7 +7810,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7848,7 +7848,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7904,7 +7904,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7946,7 +7946,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7969,7 +7969,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index b907d1d..19e4e95 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.692504
+ *  Generated: 2026-11-16 02:05:12.628528
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7689,7 +7689,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7832,7 +7832,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7870,7 +7870,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7926,7 +7926,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7968,7 +7968,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7991,7 +7991,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 3eac4bd..10ad3f6 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.827253
+ *  Generated: 2026-11-16 02:05:12.758825
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7691,7 +7691,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7834,7 +7834,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7872,7 +7872,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7928,7 +7928,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7970,7 +7970,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7993,7 +7993,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 947b9f9..0f2382e 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.718960
+ *  Generated: 2026-11-16 02:05:12.654816
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7674,7 +7674,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7817,7 +7817,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7855,7 +7855,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7911,7 +7911,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7953,7 +7953,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7976,7 +7976,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 5507b23..590f899 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.854292
+ *  Generated: 2026-11-16 02:05:12.784351
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7675,7 +7675,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7818,7 +7818,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7856,7 +7856,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7912,7 +7912,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -7954,7 +7954,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -7977,7 +7977,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 74740ef..b9b7c8f 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.800487
+ *  Generated: 2026-11-16 02:05:12.733683
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7743,7 +7743,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7886,7 +7886,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7924,7 +7924,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7980,7 +7980,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -8022,7 +8022,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -8045,7 +8045,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index f147f72..5c1e003 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 01:14:49.633017
+ *  Generated: 2026-11-16 02:05:12.574595
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7726,7 +7726,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7869,7 +7869,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7907,7 +7907,7 @@ namespace fakeit {
         template <typename T, int N>
         struct ArgValue
         {
-            ArgValue(T &&v): value ( std::forward<T>(v) ) {}
+            ArgValue(T v): value ( std::move(v) ) {}
             constexpr static int pos = N;
             T value;
         };
@@ -7963,7 +7963,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(const ArgumentsTuple<valuelist...> &, arglist &&... ) {}
         };
 
         template<int arg_index, int check_index>
@@ -8005,7 +8005,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T &&) {
             }
         };
 
@@ -8028,7 +8028,7 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
             return { std::forward<ArgType>(arg) };
-- 
2.43.0


From 900872f7c80db26a2597aec9f972e7d6e592290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:24 +0000
Subject: [PATCH 13/38] fix: a spied object keeps its dynamic type

The virtual table put in place while an object is spied named the mocked
class as dynamic type, so typeid and dynamic_cast gave wrong answers for
objects of derived classes.
---
 include/mockutils/gcc/VirtualTable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mockutils/gcc/VirtualTable.hpp b/include/mockutils/gcc/VirtualTable.hpp
index 79d0e10..952a22d 100644
--- a/include/mockutils/gcc/VirtualTable.hpp
+++ b/include/mockutils/gcc/VirtualTable.hpp
@@ -75,7 +75,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-            //firstMethod[-1] = from.firstMethod[-1]; // copy type_info
+            _firstMethod[-1] = from._firstMethod[-1]; // copy type_info
+            _firstMethod[-2] = from._firstMethod[-2]; // copy top_offset
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
-- 
2.43.0


From 234a6d34424fb1765f408edcbb547fa318f9bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:24 +0000
Subject: [PATCH 14/38] fix: regenerate the single headers

Brings the generated single headers up to date with the spied type correction.
---
 single_header/boost/fakeit.hpp      | 5 +++--
 single_header/catch/fakeit.hpp      | 5 +++--
 single_header/cute/fakeit.hpp       | 5 +++--
 single_header/doctest/fakeit.hpp    | 5 +++--
 single_header/gtest/fakeit.hpp      | 5 +++--
 single_header/mettle/fakeit.hpp     | 5 +++--
 single_header/mstest/fakeit.hpp     | 5 +++--
 single_header/nunit/fakeit.hpp      | 5 +++--
 single_header/qtest/fakeit.hpp      | 5 +++--
 single_header/standalone/fakeit.hpp | 5 +++--
 single_header/tpunit/fakeit.hpp     | 5 +++--
 11 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 4b81da4..4ff69e3 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.707539
+ *  Generated: 2026-11-16 02:17:24.745966
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5721,7 +5721,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index c1b1952..aeb4573 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.681379
+ *  Generated: 2026-11-16 02:17:24.713776
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5759,7 +5759,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index a29d3d3..9231f54 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.547992
+ *  Generated: 2026-11-16 02:17:24.549676
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5686,7 +5686,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index ad81750..e01247d 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.602207
+ *  Generated: 2026-11-16 02:17:24.616069
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5714,7 +5714,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index ca45195..18689eb 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.521477
+ *  Generated: 2026-11-16 02:17:24.515944
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5686,7 +5686,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 19e4e95..3ee761e 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.628528
+ *  Generated: 2026-11-16 02:17:24.646725
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5708,7 +5708,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 10ad3f6..7d4d5f7 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.758825
+ *  Generated: 2026-11-16 02:17:24.803959
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5710,7 +5710,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 0f2382e..05d89df 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.654816
+ *  Generated: 2026-11-16 02:17:24.679442
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5693,7 +5693,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 590f899..0d085d1 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.784351
+ *  Generated: 2026-11-16 02:17:24.833061
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5694,7 +5694,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index b9b7c8f..5dcfa31 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.733683
+ *  Generated: 2026-11-16 02:17:24.774223
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5762,7 +5762,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 5c1e003..92ca548 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:05:12.574595
+ *  Generated: 2026-11-16 02:17:24.582694
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5745,7 +5745,8 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-
+            _firstMethod[-1] = from._firstMethod[-1];
+            _firstMethod[-2] = from._firstMethod[-2];
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
-- 
2.43.0


From 6485375d358cd89bfffaf5cdcc719999b7fec3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:40 +0000
Subject: [PATCH 15/38] fix: ReturnAndSet with placeholders accepts void
 pointer arguments

Before C++17 a method with a void pointer argument could not be stubbed with
placeholders even when another argument was to be set.
---
 include/fakeit/StubbingProgress.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index cdb5c53..feb846c 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -399,8 +399,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+        // A pointer whose target can be assigned to; void pointers are plain values.
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
+        template <typename current_arg>
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -408,7 +413,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
-- 
2.43.0


From 4b0fa945d1c3d1fefc018e76ac10da0795629c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:41 +0000
Subject: [PATCH 16/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 11 ++++++++---
 single_header/catch/fakeit.hpp      | 11 ++++++++---
 single_header/cute/fakeit.hpp       | 11 ++++++++---
 single_header/doctest/fakeit.hpp    | 11 ++++++++---
 single_header/gtest/fakeit.hpp      | 11 ++++++++---
 single_header/mettle/fakeit.hpp     | 11 ++++++++---
 single_header/mstest/fakeit.hpp     | 11 ++++++++---
 single_header/nunit/fakeit.hpp      | 11 ++++++++---
 single_header/qtest/fakeit.hpp      | 11 ++++++++---
 single_header/standalone/fakeit.hpp | 11 ++++++++---
 single_header/tpunit/fakeit.hpp     | 11 ++++++++---
 11 files changed, 88 insertions(+), 33 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 4ff69e3..4121adf 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.745966
+ *  Generated: 2026-11-16 02:31:40.986368
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7912,8 +7912,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7921,7 +7926,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index aeb4573..8da3b6f 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.713776
+ *  Generated: 2026-11-16 02:31:40.958461
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7950,8 +7950,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7959,7 +7964,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 9231f54..f9e25a4 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.549676
+ *  Generated: 2026-11-16 02:31:40.819238
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7877,8 +7877,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7886,7 +7891,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index e01247d..12baeff 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.616069
+ *  Generated: 2026-11-16 02:31:40.878058
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7905,8 +7905,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7914,7 +7919,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 18689eb..7ee2ea0 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.515944
+ *  Generated: 2026-11-16 02:31:40.792845
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7877,8 +7877,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7886,7 +7891,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 3ee761e..f3333b6 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.646725
+ *  Generated: 2026-11-16 02:31:40.904823
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7899,8 +7899,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7908,7 +7913,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 7d4d5f7..f1f6322 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.803959
+ *  Generated: 2026-11-16 02:31:41.039442
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7901,8 +7901,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7910,7 +7915,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 05d89df..b5b2368 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.679442
+ *  Generated: 2026-11-16 02:31:40.931414
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7884,8 +7884,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7893,7 +7898,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 0d085d1..55a8e2a 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.833061
+ *  Generated: 2026-11-16 02:31:41.066207
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7885,8 +7885,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7894,7 +7899,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 5dcfa31..d7697c4 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.774223
+ *  Generated: 2026-11-16 02:31:41.013054
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7953,8 +7953,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7962,7 +7967,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 92ca548..ff287bf 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:17:24.582694
+ *  Generated: 2026-11-16 02:31:40.846939
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -7936,8 +7936,13 @@ namespace fakeit {
             static void CheckPositions(T) {}
         };
 
+
+        template <typename current_arg>
+        struct is_object_pointer : std::integral_constant<bool, std::is_pointer<current_arg>::value
+            && !std::is_void<typename std::remove_pointer<current_arg>::type>::value> {};
+
         template <typename current_arg>
-        typename std::enable_if<std::is_pointer<current_arg>::value,
+        typename std::enable_if<is_object_pointer<current_arg>::value,
             typename std::remove_pointer<current_arg>::type &>::type
         GetArg(current_arg &&t)
         {
@@ -7945,7 +7950,7 @@ namespace fakeit {
         }
 
         template <typename current_arg>
-        typename std::enable_if<!std::is_pointer<current_arg>::value, current_arg>::type
+        typename std::enable_if<!is_object_pointer<current_arg>::value, current_arg>::type
         GetArg(current_arg &&t)
         {
             return std::forward<current_arg>(t);
-- 
2.43.0


From 67dfca1954ccc69251748b08500a17712542cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:03 +0000
Subject: [PATCH 17/38] fix: Reset of a mock whose records own its object

Reset dropped the recorded arguments and actions while the methods were still
bound. A recorded smart pointer to the mocked object then called the stubbed
destructor, whose handler was already gone.
---
 include/mockutils/DynamicProxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 6a0e922..a5d21d4 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -91,12 +91,13 @@ namespace fakeit {
         }
 
         void Reset() {
+            // Unbind the methods first: dropping the records may destroy the instance (a recorded smart pointer to it).
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
-- 
2.43.0


From 4c58a63f5e7fb9beb02fb9db485d30149ea4a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:04 +0000
Subject: [PATCH 18/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 5 +++--
 single_header/catch/fakeit.hpp      | 5 +++--
 single_header/cute/fakeit.hpp       | 5 +++--
 single_header/doctest/fakeit.hpp    | 5 +++--
 single_header/gtest/fakeit.hpp      | 5 +++--
 single_header/mettle/fakeit.hpp     | 5 +++--
 single_header/mstest/fakeit.hpp     | 5 +++--
 single_header/nunit/fakeit.hpp      | 5 +++--
 single_header/qtest/fakeit.hpp      | 5 +++--
 single_header/standalone/fakeit.hpp | 5 +++--
 single_header/tpunit/fakeit.hpp     | 5 +++--
 11 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 4121adf..7e48139 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.986368
+ *  Generated: 2026-11-16 03:09:04.225242
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6074,12 +6074,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 8da3b6f..bbdaacf 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.958461
+ *  Generated: 2026-11-16 03:09:04.198749
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6112,12 +6112,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index f9e25a4..775683f 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.819238
+ *  Generated: 2026-11-16 03:09:04.066041
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6039,12 +6039,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 12baeff..3a1090c 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.878058
+ *  Generated: 2026-11-16 03:09:04.119801
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6067,12 +6067,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 7ee2ea0..d85a62a 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.792845
+ *  Generated: 2026-11-16 03:09:04.039730
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6039,12 +6039,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index f3333b6..dc193f9 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.904823
+ *  Generated: 2026-11-16 03:09:04.146239
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6061,12 +6061,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index f1f6322..97b3f31 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:41.039442
+ *  Generated: 2026-11-16 03:09:04.279113
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6063,12 +6063,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index b5b2368..6511ffa 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.931414
+ *  Generated: 2026-11-16 03:09:04.172396
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6046,12 +6046,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 55a8e2a..bf7797f 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:41.066207
+ *  Generated: 2026-11-16 03:09:04.308431
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6047,12 +6047,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index d7697c4..412a0a6 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:41.013054
+ *  Generated: 2026-11-16 03:09:04.252127
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6115,12 +6115,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index ff287bf..28a86d1 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 02:31:40.846939
+ *  Generated: 2026-11-16 03:09:04.093322
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6098,12 +6098,13 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
-- 
2.43.0


From 4d9714f683c877ef9721e76970ad8a7ef4703d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:30 +0000
Subject: [PATCH 19/38] fix: align the object of a mock like the mocked class

The object was allocated with the alignment of a pointer, so mocks of classes
with a larger alignment handed out misaligned objects.
---
 include/mockutils/FakeObject.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/FakeObject.hpp b/include/mockutils/FakeObject.hpp
index bf4260d..1c1fff2 100644
--- a/include/mockutils/FakeObject.hpp
+++ b/include/mockutils/FakeObject.hpp
@@ -46,7 +46,7 @@ namespace fakeit
     } // namespace details
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;            // undefined
-- 
2.43.0


From 32c54f46af5dd31e27f10ceb4b9311f37b4243b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:30 +0000
Subject: [PATCH 20/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 4 ++--
 single_header/catch/fakeit.hpp      | 4 ++--
 single_header/cute/fakeit.hpp       | 4 ++--
 single_header/doctest/fakeit.hpp    | 4 ++--
 single_header/gtest/fakeit.hpp      | 4 ++--
 single_header/mettle/fakeit.hpp     | 4 ++--
 single_header/mstest/fakeit.hpp     | 4 ++--
 single_header/nunit/fakeit.hpp      | 4 ++--
 single_header/qtest/fakeit.hpp      | 4 ++--
 single_header/standalone/fakeit.hpp | 4 ++--
 single_header/tpunit/fakeit.hpp     | 4 ++--
 11 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 7e48139..e226360 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.225242
+ *  Generated: 2026-11-16 03:12:30.760532
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5849,7 +5849,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index bbdaacf..385d449 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.198749
+ *  Generated: 2026-11-16 03:12:30.735360
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5887,7 +5887,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 775683f..4f09684 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.066041
+ *  Generated: 2026-11-16 03:12:30.581335
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5814,7 +5814,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 3a1090c..08f00ad 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.119801
+ *  Generated: 2026-11-16 03:12:30.657954
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5842,7 +5842,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index d85a62a..432ba56 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.039730
+ *  Generated: 2026-11-16 03:12:30.541552
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5814,7 +5814,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index dc193f9..aa66aba 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.146239
+ *  Generated: 2026-11-16 03:12:30.683913
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5836,7 +5836,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 97b3f31..e37bc80 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.279113
+ *  Generated: 2026-11-16 03:12:30.811849
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5838,7 +5838,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 6511ffa..6324151 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.172396
+ *  Generated: 2026-11-16 03:12:30.709804
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5821,7 +5821,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index bf7797f..33f0e04 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.308431
+ *  Generated: 2026-11-16 03:12:30.837807
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5822,7 +5822,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 412a0a6..c894d5b 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.252127
+ *  Generated: 2026-11-16 03:12:30.786129
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5890,7 +5890,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 28a86d1..c4b2cf6 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:09:04.093322
+ *  Generated: 2026-11-16 03:12:30.622189
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -5873,7 +5873,7 @@ namespace fakeit
     }
 
     template <typename C, typename... BaseClasses>
-    class FakeObject
+    class alignas(C) FakeObject
         : public details::FakeObjectImpl<sizeof(C) - sizeof(VirtualTable<C, BaseClasses...>), C, BaseClasses...>
     {
         FakeObject(FakeObject const&) = delete;
-- 
2.43.0


From 5a0ecb3c2dc5c104a824d55a418f824f66a337e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:59 +0000
Subject: [PATCH 21/38] fix: do not leak argument matchers when copying an
 expected value throws

The matchers created for the preceding arguments were left behind.
---
 include/fakeit/MethodMockingContext.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index bf1db0b..0e0e85f 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -257,7 +257,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                // copying an expected value failed. delete the matchers created so far.
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
-- 
2.43.0


From 350d5c3c7ee53fc143d1b0674fc8d6ccc29e37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:59 +0000
Subject: [PATCH 22/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 12 ++++++++++--
 single_header/catch/fakeit.hpp      | 12 ++++++++++--
 single_header/cute/fakeit.hpp       | 12 ++++++++++--
 single_header/doctest/fakeit.hpp    | 12 ++++++++++--
 single_header/gtest/fakeit.hpp      | 12 ++++++++++--
 single_header/mettle/fakeit.hpp     | 12 ++++++++++--
 single_header/mstest/fakeit.hpp     | 12 ++++++++++--
 single_header/nunit/fakeit.hpp      | 12 ++++++++++--
 single_header/qtest/fakeit.hpp      | 12 ++++++++++--
 single_header/standalone/fakeit.hpp | 12 ++++++++++--
 single_header/tpunit/fakeit.hpp     | 12 ++++++++++--
 11 files changed, 110 insertions(+), 22 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index e226360..37a8afe 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.760532
+ *  Generated: 2026-11-16 03:18:59.292710
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8434,7 +8434,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 385d449..ae9c986 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.735360
+ *  Generated: 2026-11-16 03:18:59.263895
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8472,7 +8472,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 4f09684..9942520 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.581335
+ *  Generated: 2026-11-16 03:18:59.118926
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8399,7 +8399,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 08f00ad..fe0573e 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.657954
+ *  Generated: 2026-11-16 03:18:59.177079
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8427,7 +8427,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 432ba56..cd04870 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.541552
+ *  Generated: 2026-11-16 03:18:59.090110
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8399,7 +8399,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index aa66aba..d817d9d 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.683913
+ *  Generated: 2026-11-16 03:18:59.206367
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8421,7 +8421,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index e37bc80..4713847 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.811849
+ *  Generated: 2026-11-16 03:18:59.350624
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8423,7 +8423,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 6324151..e66509c 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.709804
+ *  Generated: 2026-11-16 03:18:59.235009
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8406,7 +8406,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 33f0e04..cfb03fa 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.837807
+ *  Generated: 2026-11-16 03:18:59.378757
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8407,7 +8407,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index c894d5b..abaafbd 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.786129
+ *  Generated: 2026-11-16 03:18:59.321630
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8475,7 +8475,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index c4b2cf6..129a3a1 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:12:30.622189
+ *  Generated: 2026-11-16 03:18:59.147794
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -8458,7 +8458,15 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
-- 
2.43.0


From a2cdb1b5a0b746ffdb0aeb528e2164b426486489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:07 +0000
Subject: [PATCH 23/38] fix: do not compare the text of a null C string

A method stubbed or verified with StrEq, StrNe, StrLt, StrLe, StrGt or
StrGe crashed when it was called with a null pointer. A null pointer now
differs from every text and has no order.
---
 include/fakeit/argument_matchers.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/fakeit/argument_matchers.hpp b/include/fakeit/argument_matchers.hpp
index 4a64866..a3d47c7 100644
--- a/include/fakeit/argument_matchers.hpp
+++ b/include/fakeit/argument_matchers.hpp
@@ -256,6 +256,11 @@ namespace fakeit {
             }
         };
 
+        // A null pointer has no text to compare: it only differs from any other.
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -278,7 +283,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -308,7 +313,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -338,7 +343,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -368,7 +373,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -398,7 +403,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -428,7 +433,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
-- 
2.43.0


From 436ec5bab9c29fc7cc1075073863e2fd488b25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:07 +0000
Subject: [PATCH 24/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 19 ++++++++++++-------
 single_header/catch/fakeit.hpp      | 19 ++++++++++++-------
 single_header/cute/fakeit.hpp       | 19 ++++++++++++-------
 single_header/doctest/fakeit.hpp    | 19 ++++++++++++-------
 single_header/gtest/fakeit.hpp      | 19 ++++++++++++-------
 single_header/mettle/fakeit.hpp     | 19 ++++++++++++-------
 single_header/mstest/fakeit.hpp     | 19 ++++++++++++-------
 single_header/nunit/fakeit.hpp      | 19 ++++++++++++-------
 single_header/qtest/fakeit.hpp      | 19 ++++++++++++-------
 single_header/standalone/fakeit.hpp | 19 ++++++++++++-------
 single_header/tpunit/fakeit.hpp     | 19 ++++++++++++-------
 11 files changed, 132 insertions(+), 77 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 37a8afe..774b4f3 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.292710
+ *  Generated: 2026-11-16 04:41:07.656314
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6717,6 +6717,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6739,7 +6744,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6769,7 +6774,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6799,7 +6804,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6829,7 +6834,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6859,7 +6864,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6889,7 +6894,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index ae9c986..5fd158c 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.263895
+ *  Generated: 2026-11-16 04:41:07.626646
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6755,6 +6755,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6777,7 +6782,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6807,7 +6812,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6837,7 +6842,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6867,7 +6872,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6897,7 +6902,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6927,7 +6932,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 9942520..039e187 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.118926
+ *  Generated: 2026-11-16 04:41:07.485045
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6682,6 +6682,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6704,7 +6709,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6734,7 +6739,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6764,7 +6769,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6794,7 +6799,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6824,7 +6829,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6854,7 +6859,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index fe0573e..1fe6834 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.177079
+ *  Generated: 2026-11-16 04:41:07.539675
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6710,6 +6710,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6732,7 +6737,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6762,7 +6767,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6792,7 +6797,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6822,7 +6827,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6852,7 +6857,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6882,7 +6887,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index cd04870..b22ce77 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.090110
+ *  Generated: 2026-11-16 04:41:07.458058
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6682,6 +6682,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6704,7 +6709,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6734,7 +6739,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6764,7 +6769,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6794,7 +6799,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6824,7 +6829,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6854,7 +6859,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index d817d9d..f0fbd3a 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.206367
+ *  Generated: 2026-11-16 04:41:07.568674
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6704,6 +6704,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6726,7 +6731,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6756,7 +6761,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6786,7 +6791,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6816,7 +6821,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6846,7 +6851,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6876,7 +6881,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 4713847..a47f974 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.350624
+ *  Generated: 2026-11-16 04:41:07.714146
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6706,6 +6706,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6728,7 +6733,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6758,7 +6763,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6788,7 +6793,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6818,7 +6823,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6848,7 +6853,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6878,7 +6883,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index e66509c..a7086ec 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.235009
+ *  Generated: 2026-11-16 04:41:07.597359
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6689,6 +6689,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6711,7 +6716,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6741,7 +6746,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6771,7 +6776,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6801,7 +6806,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6831,7 +6836,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6861,7 +6866,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index cfb03fa..824a9ba 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.378757
+ *  Generated: 2026-11-16 04:41:07.741150
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6690,6 +6690,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6712,7 +6717,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6742,7 +6747,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6772,7 +6777,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6802,7 +6807,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6832,7 +6837,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6862,7 +6867,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index abaafbd..9ed6741 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.321630
+ *  Generated: 2026-11-16 04:41:07.685800
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6758,6 +6758,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6780,7 +6785,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6810,7 +6815,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6840,7 +6845,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6870,7 +6875,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6900,7 +6905,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6930,7 +6935,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 129a3a1..b15b17f 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 03:18:59.147794
+ *  Generated: 2026-11-16 04:41:07.512002
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6741,6 +6741,11 @@ namespace fakeit {
             }
         };
 
+
+        inline bool isNullText(const char *text) {
+            return text == nullptr;
+        }
+
         template <typename ExpectedTRef>
         struct StrEqMatcherCreator : public ComparisonMatcherCreatorBase<ExpectedTRef> {
             using ExpectedT = typename ComparisonMatcherCreatorBase<ExpectedTRef>::ExpectedT;
@@ -6763,7 +6768,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6793,7 +6798,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6823,7 +6828,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6853,7 +6858,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6883,7 +6888,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return !isNullText(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6913,7 +6918,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return isNullText(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
-- 
2.43.0


From e576958b6677be8ffb255842e172a28239ad0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:27 +0000
Subject: [PATCH 25/38] fix: compute the distance of integers in ApproxEq
 without overflow

ApproxEq subtracted the expected from the actual value in their own type.
With values far apart the subtraction overflowed and the argument could be
accepted although it was out of the margin.
---
 include/fakeit/argument_matchers.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/argument_matchers.hpp b/include/fakeit/argument_matchers.hpp
index a3d47c7..998db48 100644
--- a/include/fakeit/argument_matchers.hpp
+++ b/include/fakeit/argument_matchers.hpp
@@ -441,6 +441,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+        // The distance of two integers may be too large for their own type, but not for the unsigned one.
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -477,7 +494,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
-- 
2.43.0


From 0f96b6489a9f39f535e8ae41c1bfa1e33eff22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:28 +0000
Subject: [PATCH 26/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/catch/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/cute/fakeit.hpp       | 21 +++++++++++++++++++--
 single_header/doctest/fakeit.hpp    | 21 +++++++++++++++++++--
 single_header/gtest/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/mettle/fakeit.hpp     | 21 +++++++++++++++++++--
 single_header/mstest/fakeit.hpp     | 21 +++++++++++++++++++--
 single_header/nunit/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/qtest/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/standalone/fakeit.hpp | 21 +++++++++++++++++++--
 single_header/tpunit/fakeit.hpp     | 21 +++++++++++++++++++--
 11 files changed, 209 insertions(+), 22 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 774b4f3..6bd5610 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.656314
+ *  Generated: 2026-11-16 04:41:28.220443
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6902,6 +6902,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6938,7 +6955,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 5fd158c..d7db4a9 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.626646
+ *  Generated: 2026-11-16 04:41:28.194023
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6940,6 +6940,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6976,7 +6993,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 039e187..8b7bdb2 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.485045
+ *  Generated: 2026-11-16 04:41:28.059258
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6867,6 +6867,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6903,7 +6920,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 1fe6834..b047b1c 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.539675
+ *  Generated: 2026-11-16 04:41:28.113703
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6895,6 +6895,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6931,7 +6948,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index b22ce77..eccb607 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.458058
+ *  Generated: 2026-11-16 04:41:28.030982
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6867,6 +6867,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6903,7 +6920,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index f0fbd3a..2737b48 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.568674
+ *  Generated: 2026-11-16 04:41:28.140983
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6889,6 +6889,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6925,7 +6942,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index a47f974..24048fa 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.714146
+ *  Generated: 2026-11-16 04:41:28.274417
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6891,6 +6891,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6927,7 +6944,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index a7086ec..13c018d 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.597359
+ *  Generated: 2026-11-16 04:41:28.167802
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6874,6 +6874,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6910,7 +6927,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 824a9ba..3620b25 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.741150
+ *  Generated: 2026-11-16 04:41:28.300563
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6875,6 +6875,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6911,7 +6928,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 9ed6741..bef7a78 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.685800
+ *  Generated: 2026-11-16 04:41:28.248087
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6943,6 +6943,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6979,7 +6996,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index b15b17f..5ba77f4 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:07.512002
+ *  Generated: 2026-11-16 04:41:28.086367
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -6926,6 +6926,23 @@ namespace fakeit {
             }
         };
 
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<!std::is_integral<ActualT>::value || !std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            return std::abs(actual - expected) <= margin;
+        }
+
+
+        template<typename ActualT, typename ExpectedT, typename MarginT>
+        typename std::enable_if<std::is_integral<ActualT>::value && std::is_integral<ExpectedT>::value, bool>::type
+        isWithinMargin(const ActualT &actual, const ExpectedT &expected, const MarginT &margin) {
+            using DistanceT = typename std::make_unsigned<decltype(actual - expected)>::type;
+            const DistanceT distance = actual > expected
+                    ? static_cast<DistanceT>(actual) - static_cast<DistanceT>(expected)
+                    : static_cast<DistanceT>(expected) - static_cast<DistanceT>(actual);
+            return margin >= 0 && distance <= static_cast<typename std::common_type<DistanceT, MarginT>::type>(margin);
+        }
+
         template<typename ExpectedTRef, typename ExpectedMarginTRef>
         struct ApproxEqCreator {
             using ExpectedT = typename naked_type<ExpectedTRef>::type;
@@ -6962,7 +6979,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::abs(actual - this->_expected) <= this->_expectedMargin;
+                        return isWithinMargin(actual, this->_expected, this->_expectedMargin);
                     }
                 };
 
-- 
2.43.0


From 8b3f395591d14d2361683f0691a97b2c3cd09eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:36 +0000
Subject: [PATCH 27/38] fix: a null character in an argument cut the failure
 report

Reports are handed on as C strings, so a null char or a string containing one
ended the text at that argument. It is now shown as \0.
---
 include/mockutils/Formatter.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/mockutils/Formatter.hpp b/include/mockutils/Formatter.hpp
index 5e0d6eb..10c49f3 100644
--- a/include/mockutils/Formatter.hpp
+++ b/include/mockutils/Formatter.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <ostream>
+#include <string>
 #include "mockutils/type_utils.hpp"
 
 namespace fakeit {
@@ -15,6 +16,14 @@ namespace fakeit {
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+	// A null character would end the report for everyone who reads it as a C string.
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -33,7 +42,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -80,7 +89,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
-- 
2.43.0


From 8c45b5ee729f15936b1ec7be5ba7eea0945c9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:37 +0000
Subject: [PATCH 28/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 15 ++++++++++++---
 single_header/catch/fakeit.hpp      | 15 ++++++++++++---
 single_header/cute/fakeit.hpp       | 15 ++++++++++++---
 single_header/doctest/fakeit.hpp    | 15 ++++++++++++---
 single_header/gtest/fakeit.hpp      | 15 ++++++++++++---
 single_header/mettle/fakeit.hpp     | 15 ++++++++++++---
 single_header/mstest/fakeit.hpp     | 15 ++++++++++++---
 single_header/nunit/fakeit.hpp      | 15 ++++++++++++---
 single_header/qtest/fakeit.hpp      | 15 ++++++++++++---
 single_header/standalone/fakeit.hpp | 15 ++++++++++++---
 single_header/tpunit/fakeit.hpp     | 15 ++++++++++++---
 11 files changed, 132 insertions(+), 33 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 6bd5610..6e0fbf1 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.220443
+ *  Generated: 2026-11-16 05:40:37.057885
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index d7db4a9..f503ea6 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.194023
+ *  Generated: 2026-11-16 05:40:37.004463
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 8b7bdb2..095246f 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.059258
+ *  Generated: 2026-11-16 05:40:36.740722
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index b047b1c..ba9ddf9 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.113703
+ *  Generated: 2026-11-16 05:40:36.846649
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index eccb607..c7bb818 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.030982
+ *  Generated: 2026-11-16 05:40:36.684273
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 2737b48..7b31702 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.140983
+ *  Generated: 2026-11-16 05:40:36.899582
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -253,12 +253,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -277,7 +286,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -324,7 +333,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 24048fa..cc0389d 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.274417
+ *  Generated: 2026-11-16 05:40:37.164443
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 13c018d..1fb0b7c 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.167802
+ *  Generated: 2026-11-16 05:40:36.951085
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 3620b25..b192ee8 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.300563
+ *  Generated: 2026-11-16 05:40:37.217133
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index bef7a78..b79878a 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.248087
+ *  Generated: 2026-11-16 05:40:37.111329
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -253,12 +253,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -277,7 +286,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -324,7 +333,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 5ba77f4..e4d04ed 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 04:41:28.086367
+ *  Generated: 2026-11-16 05:40:36.793671
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -254,12 +254,21 @@ namespace fakeit {
 #include <string>
 #include <sstream>
 #include <ostream>
+#include <string>
 
 namespace fakeit {
 
 	template<typename T, class Enable = void>
 	struct Formatter;
 
+
+	inline std::string withVisibleNulls(std::string s)
+	{
+		for (std::string::size_type pos = s.find('\0'); pos != std::string::npos; pos = s.find('\0', pos + 2))
+			s.replace(pos, 1, "\\0");
+		return s;
+	}
+
 	template <>
 	struct Formatter<bool>
 	{
@@ -278,7 +287,7 @@ namespace fakeit {
 			s += "'";
 			s += val;
 			s += "'";
-			return s;
+			return withVisibleNulls(s);
 		}
 	};
 
@@ -325,7 +334,7 @@ namespace fakeit {
 		{
 			std::ostringstream os;
 			os << val;
-			return os.str();
+			return withVisibleNulls(os.str());
 		}
 	};
 
-- 
2.43.0


From 8c6978a2f3df7ad46927c2a0554c175c90577251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:34 +0000
Subject: [PATCH 29/38] fix: an action that resets or destroys its own mock
 used freed memory

The recorded actions of the called method were freed while one of them was
still running. The call keeps them alive until it returns.
---
 include/fakeit/RecordedMethodBody.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/RecordedMethodBody.hpp b/include/fakeit/RecordedMethodBody.hpp
index 201000c..6d6eaa9 100644
--- a/include/fakeit/RecordedMethodBody.hpp
+++ b/include/fakeit/RecordedMethodBody.hpp
@@ -39,7 +39,9 @@ namespace fakeit {
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+                // The called action may reset or destroy the mock.
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
-- 
2.43.0


From fa93b01646c4935f5c6fc009bee334a01c4ef8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:34 +0000
Subject: [PATCH 30/38] fix: a spied method that resets or destroys its mock
 left the mock's method behind

After the original method returned, the replaced method was put back into the
table although the mock did not know it any more. The next call crashed.
---
 include/mockutils/DynamicProxy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index a5d21d4..78c4a63 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -184,8 +184,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+                // The original method may have reset or destroyed the mock.
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
-- 
2.43.0


From 856297e8141e92955ae2c7b84b1cadccce5ee957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:34 +0000
Subject: [PATCH 31/38] fix: an event handler that adds or clears event
 handlers used freed memory

The list of handlers was changed while it was being walked through.
---
 include/fakeit/FakeitContext.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fakeit/FakeitContext.hpp b/include/fakeit/FakeitContext.hpp
index 8f124ab..d197003 100644
--- a/include/fakeit/FakeitContext.hpp
+++ b/include/fakeit/FakeitContext.hpp
@@ -74,18 +74,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+            // A listener may add or clear listeners.
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+            // A listener may add or clear listeners.
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+            // A listener may add or clear listeners.
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
-- 
2.43.0


From edc878ae8fb96a36df8f12ba0f42326e3e6bc5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:35 +0000
Subject: [PATCH 32/38] fix: a stubbing made while an exception unwinds the
 stack was lost

A destructor that ran because of an exception could not stub a method: the
stubbing was taken for one that the exception interrupted.
---
 include/fakeit/FakeitExceptions.hpp | 9 +++++++++
 include/fakeit/WhenFunctor.hpp      | 7 ++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/fakeit/FakeitExceptions.hpp b/include/fakeit/FakeitExceptions.hpp
index fdf662e..995662a 100644
--- a/include/fakeit/FakeitExceptions.hpp
+++ b/include/fakeit/FakeitExceptions.hpp
@@ -24,6 +24,15 @@ namespace fakeit {
     }
 #endif
 
+    // The number of exceptions in flight, as far as the language version can tell.
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
diff --git a/include/fakeit/WhenFunctor.hpp b/include/fakeit/WhenFunctor.hpp
index 21bb34b..41a2770 100644
--- a/include/fakeit/WhenFunctor.hpp
+++ b/include/fakeit/WhenFunctor.hpp
@@ -26,7 +26,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -34,16 +34,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
-- 
2.43.0


From 4b556bcb361674e0e5911070ed9c2a8660b1d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:56 +0000
Subject: [PATCH 33/38] fix: a boolean thrown by a matcher was taken for the
 verdict of a verification

A verification used as a boolean caught every exception of type bool, also
those of user code.
---
 include/fakeit/SequenceVerificationProgress.hpp       |  4 ++--
 include/fakeit/ThrowFalseEventHandler.hpp             | 11 +++++++++--
 .../VerifyNoOtherInvocationsVerificationProgress.hpp  |  4 ++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 9a42383..71ffe83 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -45,8 +45,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    return false;
                 }
             }
 
diff --git a/include/fakeit/ThrowFalseEventHandler.hpp b/include/fakeit/ThrowFalseEventHandler.hpp
index 27cbc1d..22e9b08 100644
--- a/include/fakeit/ThrowFalseEventHandler.hpp
+++ b/include/fakeit/ThrowFalseEventHandler.hpp
@@ -8,12 +8,19 @@
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
diff --git a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
index d8a8014..70ba135 100644
--- a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
+++ b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
@@ -101,8 +101,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                return false;
             }
         }
 
-- 
2.43.0


From 95b719cc0fbe966d6f7734955efdc95865ce137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:56 +0000
Subject: [PATCH 34/38] fix: a failed verification passed when its verdict was
 read again

The verdict of a verification used as a boolean was only right the first time
it was read. Later reads gave true.
---
 include/fakeit/SequenceVerificationExpectation.hpp         | 4 +++-
 include/fakeit/SequenceVerificationProgress.hpp            | 3 ++-
 .../VerifyNoOtherInvocationsVerificationProgress.hpp       | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fakeit/SequenceVerificationExpectation.hpp b/include/fakeit/SequenceVerificationExpectation.hpp
index 1b7abc2..989d8bb 100644
--- a/include/fakeit/SequenceVerificationExpectation.hpp
+++ b/include/fakeit/SequenceVerificationExpectation.hpp
@@ -49,6 +49,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -60,7 +61,8 @@ namespace fakeit {
                 _expectedCount(-1), // AT_LEAST_ONCE
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 71ffe83..c44c91e 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -43,9 +43,10 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
                 catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
                     return false;
                 }
             }
diff --git a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
index 70ba135..e467513 100644
--- a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
+++ b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
@@ -45,13 +45,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -99,9 +101,10 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
             catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
                 return false;
             }
         }
-- 
2.43.0


From 33f56d66a83284cfe459ce05be25a9862fbdc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:19 +0000
Subject: [PATCH 35/38] fix: a named method expression could not be used after
 stubbing with it

auto f = Method(mock, foo); Fake(f); Verify(f.Using(1)) freed memory that the
mock still used. Stubbing twice through the same expression did so too. The
expression and the mock now share the condition, and each stubbing through the
expression has its own actions.
---
 include/fakeit/MethodMockingContext.hpp | 22 ++++++++--------------
 include/fakeit/MockImpl.hpp             |  4 ++--
 include/fakeit/RecordedMethodBody.hpp   | 12 ++++++------
 3 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index 0e0e85f..226c6bc 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -57,8 +57,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -73,9 +73,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+            // A named method expression can be used after stubbing, so these are shared with the mock.
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -88,16 +88,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-                    // no commit. delete the created objects.
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -134,7 +129,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -163,8 +158,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index 1393422..e227b7b 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -141,8 +141,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
diff --git a/include/fakeit/RecordedMethodBody.hpp b/include/fakeit/RecordedMethodBody.hpp
index 6d6eaa9..b4351a4 100644
--- a/include/fakeit/RecordedMethodBody.hpp
+++ b/include/fakeit/RecordedMethodBody.hpp
@@ -32,8 +32,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -65,8 +65,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -109,8 +109,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
-- 
2.43.0


From f4b58f84e126847adda3abfbc601eaeb0ffbe458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:16 +0000
Subject: [PATCH 36/38] fix: regenerate the single headers

---
 single_header/boost/fakeit.hpp      | 115 +++++++++++++++++-----------
 single_header/catch/fakeit.hpp      | 115 +++++++++++++++++-----------
 single_header/cute/fakeit.hpp       | 115 +++++++++++++++++-----------
 single_header/doctest/fakeit.hpp    | 115 +++++++++++++++++-----------
 single_header/gtest/fakeit.hpp      | 115 +++++++++++++++++-----------
 single_header/mettle/fakeit.hpp     | 115 +++++++++++++++++-----------
 single_header/mstest/fakeit.hpp     | 115 +++++++++++++++++-----------
 single_header/nunit/fakeit.hpp      | 115 +++++++++++++++++-----------
 single_header/qtest/fakeit.hpp      | 115 +++++++++++++++++-----------
 single_header/standalone/fakeit.hpp | 115 +++++++++++++++++-----------
 single_header/tpunit/fakeit.hpp     | 115 +++++++++++++++++-----------
 11 files changed, 770 insertions(+), 495 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 6e0fbf1..7fb08f9 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:37.057885
+ *  Generated: 2026-11-16 07:05:16.697538
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6176,8 +6188,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7251,14 +7266,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7282,8 +7299,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7326,8 +7343,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8275,8 +8292,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8291,9 +8308,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8306,16 +8323,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8350,7 +8362,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8379,8 +8391,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8743,8 +8754,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9238,7 +9249,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9246,16 +9257,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9536,6 +9548,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9547,7 +9560,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9633,12 +9647,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9693,10 +9714,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9905,13 +9927,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9959,10 +9983,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index f503ea6..334eae8 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:37.004463
+ *  Generated: 2026-11-16 07:05:16.667276
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6214,8 +6226,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7289,14 +7304,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7320,8 +7337,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7364,8 +7381,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8313,8 +8330,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8329,9 +8346,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8344,16 +8361,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8388,7 +8400,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8417,8 +8429,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8781,8 +8792,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9276,7 +9287,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9284,16 +9295,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9574,6 +9586,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9585,7 +9598,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9671,12 +9685,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9717,10 +9738,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9929,13 +9951,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9983,10 +10007,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 095246f..24e041e 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:36.740722
+ *  Generated: 2026-11-16 07:05:16.511150
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6141,8 +6153,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7216,14 +7231,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7247,8 +7264,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7291,8 +7308,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8240,8 +8257,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8256,9 +8273,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8271,16 +8288,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8315,7 +8327,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8344,8 +8356,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8708,8 +8719,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9203,7 +9214,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9211,16 +9222,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9501,6 +9513,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9512,7 +9525,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9598,12 +9612,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9658,10 +9679,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9870,13 +9892,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9924,10 +9948,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index ba9ddf9..fc4384b 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:36.846649
+ *  Generated: 2026-11-16 07:05:16.571142
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6169,8 +6181,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7244,14 +7259,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7275,8 +7292,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7319,8 +7336,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8268,8 +8285,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8284,9 +8301,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8299,16 +8316,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8343,7 +8355,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8372,8 +8384,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8736,8 +8747,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9231,7 +9242,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9239,16 +9250,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9529,6 +9541,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9540,7 +9553,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9626,12 +9640,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9672,10 +9693,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9884,13 +9906,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9938,10 +9962,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index c7bb818..80c008d 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:36.684273
+ *  Generated: 2026-11-16 07:05:16.478647
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6141,8 +6153,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7216,14 +7231,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7247,8 +7264,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7291,8 +7308,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8240,8 +8257,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8256,9 +8273,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8271,16 +8288,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8315,7 +8327,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8344,8 +8356,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8708,8 +8719,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9203,7 +9214,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9211,16 +9222,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9501,6 +9513,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9512,7 +9525,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9598,12 +9612,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9658,10 +9679,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9870,13 +9892,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9924,10 +9948,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 7b31702..02b5404 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:36.899582
+ *  Generated: 2026-11-16 07:05:16.602815
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -871,18 +871,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1035,6 +1038,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6163,8 +6175,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7238,14 +7253,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7269,8 +7286,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7313,8 +7330,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8262,8 +8279,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8278,9 +8295,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8293,16 +8310,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8337,7 +8349,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8366,8 +8378,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8730,8 +8741,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9225,7 +9236,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9233,16 +9244,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9523,6 +9535,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9534,7 +9547,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9620,12 +9634,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9666,10 +9687,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9878,13 +9900,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9932,10 +9956,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index cc0389d..04c282e 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:37.164443
+ *  Generated: 2026-11-16 07:05:16.754609
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6165,8 +6177,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7240,14 +7255,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7271,8 +7288,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7315,8 +7332,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8264,8 +8281,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8280,9 +8297,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8295,16 +8312,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8339,7 +8351,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8368,8 +8380,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8732,8 +8743,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9227,7 +9238,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9235,16 +9246,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9525,6 +9537,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9536,7 +9549,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9622,12 +9636,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9682,10 +9703,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9894,13 +9916,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9948,10 +9972,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 1fb0b7c..6270392 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:36.951085
+ *  Generated: 2026-11-16 07:05:16.635633
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6148,8 +6160,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7223,14 +7238,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7254,8 +7271,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7298,8 +7315,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8247,8 +8264,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8263,9 +8280,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8278,16 +8295,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8322,7 +8334,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8351,8 +8363,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8715,8 +8726,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9210,7 +9221,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9218,16 +9229,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9508,6 +9520,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9519,7 +9532,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9605,12 +9619,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9665,10 +9686,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9877,13 +9899,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9931,10 +9955,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index b192ee8..c2761d5 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:37.217133
+ *  Generated: 2026-11-16 07:05:16.782117
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6149,8 +6161,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7224,14 +7239,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7255,8 +7272,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7299,8 +7316,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8248,8 +8265,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8264,9 +8281,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8279,16 +8296,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8323,7 +8335,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8352,8 +8364,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8716,8 +8727,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9211,7 +9222,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9219,16 +9230,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9509,6 +9521,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9520,7 +9533,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9606,12 +9620,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9666,10 +9687,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9878,13 +9900,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9932,10 +9956,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index b79878a..c9cdb9a 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:37.111329
+ *  Generated: 2026-11-16 07:05:16.726667
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -871,18 +871,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1035,6 +1038,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6217,8 +6229,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7292,14 +7307,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7323,8 +7340,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7367,8 +7384,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8316,8 +8333,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8332,9 +8349,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8347,16 +8364,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8391,7 +8403,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8420,8 +8432,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8784,8 +8795,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9279,7 +9290,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9287,16 +9298,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9577,6 +9589,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9588,7 +9601,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9674,12 +9688,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9720,10 +9741,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9932,13 +9954,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9986,10 +10010,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index e4d04ed..a034bfa 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 05:40:36.793671
+ *  Generated: 2026-11-16 07:05:16.541025
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -872,18 +872,21 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
-                listener->handle(evt);
+
+            for (std::size_t i = 0; i < _eventListeners.size(); i++)
+                _eventListeners[i]->handle(evt);
         }
 
     };
@@ -1036,6 +1039,15 @@ namespace fakeit {
     }
 #endif
 
+
+    inline int UncaughtExceptionsCount () {
+#if FAKEIT_CPLUSPLUS >= 201703L || defined(__cpp_lib_uncaught_exceptions)
+        return std::uncaught_exceptions();
+#else
+        return std::uncaught_exception() ? 1 : 0;
+#endif
+    }
+
     struct FakeitException {
         std::exception err;
 
@@ -6200,8 +6212,11 @@ namespace fakeit {
             auto originalMethod = getOriginalVT().getMethod(offset);
 
             getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
-                getFake().setMethod(offset, fakeMethod);
+            std::weak_ptr<Destructible> methodMock = _methodMocks[offset];
+            return Finally{[&, offset, fakeMethod, methodMock](){
+
+                if (!methodMock.expired())
+                    getFake().setMethod(offset, fakeMethod);
             }};
         }
 
@@ -7275,14 +7290,16 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
             virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
             {
-                Destructible &destructable = *_invocationHandler;
+
+                std::shared_ptr<Destructible> invocationHandlerPtr = _invocationHandler;
+                Destructible &destructable = *invocationHandlerPtr;
                 ActualInvocationHandler<R, arglist...> &invocationHandler = dynamic_cast<ActualInvocationHandler<R, arglist...> &>(destructable);
                 return invocationHandler.handleMethodInvocation(args);
             }
@@ -7306,8 +7323,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7350,8 +7367,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8299,8 +8316,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8315,9 +8332,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8330,16 +8347,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8374,7 +8386,7 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8403,8 +8415,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8767,8 +8778,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -9262,7 +9273,7 @@ namespace fakeit {
 
             virtual ~StubbingChange() FAKEIT_THROWS {
 
-                if (UncaughtException()) {
+                if (UncaughtExceptionsCount() > _uncaughtExceptions) {
                     return;
                 }
 
@@ -9270,16 +9281,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _uncaughtExceptions(other._uncaughtExceptions) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _uncaughtExceptions(UncaughtExceptionsCount()) {
             }
 
             Xaction &_xaction;
+            const int _uncaughtExceptions;
         };
 
     public:
@@ -9560,6 +9572,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9571,7 +9584,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -9657,12 +9671,19 @@ namespace fakeit {
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
 
+    public:
+
+        struct False {
+        };
+
+    private:
+
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw False();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw False();
         }
     };
 }
@@ -9703,10 +9724,11 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::False &) {
+                    _expectationPtr->_hasFailed = true;
+                    return false;
                 }
             }
 
@@ -9915,13 +9937,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9969,10 +9993,11 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::False &) {
+                _ptr->_hasFailed = true;
+                return false;
             }
         }
 
-- 
2.43.0


From f451a3a5cb30b5d99309938f1f377bc2a74fee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:12 +0000
Subject: [PATCH 37/38] fix: methods with wide character parameters did not
 compile with C++20

---
 include/mockutils/Formatter.hpp | 37 ++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/mockutils/Formatter.hpp b/include/mockutils/Formatter.hpp
index 10c49f3..9ca5a1e 100644
--- a/include/mockutils/Formatter.hpp
+++ b/include/mockutils/Formatter.hpp
@@ -83,12 +83,47 @@ namespace fakeit {
 		}
 	};
 
+	// Since C++20 a stream of char refuses these characters and pointers to them. Show them as before.
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
-- 
2.43.0


From 783c9540a58fd5d76a152be162a3fd9eaa9499d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:13 +0000
Subject: [PATCH 38/38] fix: regenerate the single headers

Brings the generated single headers up to date with the preceding correction.
---
 single_header/boost/fakeit.hpp      | 39 +++++++++++++++++++++++++++--
 single_header/catch/fakeit.hpp      | 39 +++++++++++++++++++++++++++--
 single_header/cute/fakeit.hpp       | 39 +++++++++++++++++++++++++++--
 single_header/doctest/fakeit.hpp    | 39 +++++++++++++++++++++++++++--
 single_header/gtest/fakeit.hpp      | 39 +++++++++++++++++++++++++++--
 single_header/mettle/fakeit.hpp     | 39 +++++++++++++++++++++++++++--
 single_header/mstest/fakeit.hpp     | 39 +++++++++++++++++++++++++++--
 single_header/nunit/fakeit.hpp      | 39 +++++++++++++++++++++++++++--
 single_header/qtest/fakeit.hpp      | 39 +++++++++++++++++++++++++++--
 single_header/standalone/fakeit.hpp | 39 +++++++++++++++++++++++++++--
 single_header/tpunit/fakeit.hpp     | 39 +++++++++++++++++++++++++++--
 11 files changed, 407 insertions(+), 22 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 7fb08f9..753a05f 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.697538
+ *  Generated: 2026-11-16 09:44:13.211421
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 334eae8..d6157b2 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.667276
+ *  Generated: 2026-11-16 09:44:13.159986
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 24e041e..7f172fa 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.511150
+ *  Generated: 2026-11-16 09:44:12.908167
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index fc4384b..2521e75 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.571142
+ *  Generated: 2026-11-16 09:44:13.009555
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 80c008d..078c0fc 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.478647
+ *  Generated: 2026-11-16 09:44:12.858212
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 02b5404..a4d66eb 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.602815
+ *  Generated: 2026-11-16 09:44:13.059274
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -327,12 +327,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 04c282e..dbb9e06 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.754609
+ *  Generated: 2026-11-16 09:44:13.291003
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 6270392..1ab6234 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.635633
+ *  Generated: 2026-11-16 09:44:13.108550
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index c2761d5..76d5f4d 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.782117
+ *  Generated: 2026-11-16 09:44:13.331335
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index c9cdb9a..76176de 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.726667
+ *  Generated: 2026-11-16 09:44:13.258681
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -327,12 +327,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index a034bfa..14ad7eb 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2026-11-16 07:05:16.541025
+ *  Generated: 2026-11-16 09:44:12.959659
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -328,12 +328,47 @@ namespace fakeit {
 		}
 	};
 
+
+	template<class C>
+	struct is_wide_character : std::false_type {};
+	template<>
+	struct is_wide_character<wchar_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char16_t> : std::true_type {};
+	template<>
+	struct is_wide_character<char32_t> : std::true_type {};
+#ifdef __cpp_char8_t
+	template<>
+	struct is_wide_character<char8_t> : std::true_type {};
+#endif
+
+	template<class C>
+	typename std::enable_if<is_wide_character<C>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << +val;
+	}
+
+	template<class C>
+	typename std::enable_if<std::is_pointer<C>::value && is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << const_cast<void const *>(static_cast<void const volatile *>(val));
+	}
+
+	template<class C>
+	typename std::enable_if<!is_wide_character<typename std::remove_cv<typename std::remove_pointer<C>::type>::type>::value>::type
+	streamValue(std::ostream &os, C const &val)
+	{
+		os << val;
+	}
+
 	template<class C>
 	struct Formatter<C, typename std::enable_if<is_ostreamable<C>::value>::type> {
 		static std::string format(C const &val)
 		{
 			std::ostringstream os;
-			os << val;
+			fakeit::streamValue(os, val);
 			return withVisibleNulls(os.str());
 		}
 	};
-- 
2.43.0

