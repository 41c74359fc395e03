From 48397721d21bb2b8473d1b6de138e8aec3fad40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 01/46] fix: lexer: require the separators of date and datetime
 constants

The result of accept() was and-ed into the error flag, which clears it: a date
with wrong separators or with invalid digits was accepted.
---
 src/lex/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..f6beaa4 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -235,17 +235,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From 4a936a33cf9f2532b24d117a65491f4a775bbb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 02/46] fix: lexer: reject floating-point constants without
 significand digits

Reading the exponent reset the flag for missing digits, such that '0xp1' and
'0x.p1' were accepted as hexadecimal floating-point constants.
---
 src/lex/Lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index f6beaa4..3bbc39b 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -167,8 +167,9 @@ Token Lexer::read_number()
         if (is  == Oct) is  = Dec; // there are no octal floating point constants
         if (has == Oct) has = Dec;
         if ('-' == c_ || '+' == c_) push();
-        empty = true;
-        while (is_dec(c_)) { empty = false; push(); }
+        bool empty_exp = true;
+        while (is_dec(c_)) { empty_exp = false; push(); }
+        empty |= empty_exp; // both the significand and the exponent require digits
     }
 
     if (empty or is != has) {
-- 
2.43.0


From 298ab518c46337ba8e0e15bbbe704d4a2b4206c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 03/46] fix: parser: '~' and NOT are not binary operators

---
 src/parse/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..58f8c95 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1044,6 +1044,7 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
 
     for (;;) {
         Token op = token();
+        if (op.type == TK_TILDE or op.type == TK_Not) return lhs; // not a binary operator
         int p = get_precedence(op);
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
         consume();
-- 
2.43.0


From f67e94ea8638125a1866a1d9bf4b8402ab2e4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 04/46] fix: value: a NULL has no type, reading it is no type
 error

---
 include/mutable/IR/Tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/IR/Tuple.hpp b/include/mutable/IR/Tuple.hpp
index 26ea561..13662e9 100644
--- a/include/mutable/IR/Tuple.hpp
+++ b/include/mutable/IR/Tuple.hpp
@@ -78,7 +78,8 @@ struct M_EXPORT Value
     template<typename T>
     std::conditional_t<std::is_pointer_v<T>, T, T&> as() {
 #ifdef M_ENABLE_SANITY_FIELDS
-#define VALIDATE_TYPE(TY) M_insist(this->type == V##TY)
+/* The value of a NULL has no type; its bytes are all 0. */
+#define VALIDATE_TYPE(TY) M_insist(this->type == V##TY or this->type == VNone)
 #else
 #define VALIDATE_TYPE(TY)
 #endif
-- 
2.43.0


From 1e405f49ddfffae9acb29ea98cf4bfdf6f5f6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 05/46] fix: interpreter: do not evaluate binary operations on
 the value of a NULL

---
 src/backend/StackMachine.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..3588f54 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1223,8 +1223,12 @@ NEXT;
     bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
     TYPE lhs = TOP.as<TYPE>(); \
-    TOP = OP(lhs, rhs); \
-    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (TOP_IS_NULL or is_rhs_null) { /* do not evaluate the operation on the value of a NULL */ \
+        TOP = decltype(OP(lhs, rhs))(); \
+        TOP_IS_NULL = true; \
+    } else { \
+        TOP = OP(lhs, rhs); \
+    } \
 } \
 NEXT;
 
-- 
2.43.0


From de39732ae684e004c79dc902c727219c35af6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 06/46] fix: unlock_read() must not lose the wakeup of an
 upgrading reader

The upgrading reader and regular writers wait on the same condition variable.
With notify_one(), a regular writer may consume the notification, find its
condition unsatisfied and go back to waiting, so that the upgrading reader and
all writers wait forever.
---
 include/mutable/util/reader_writer_lock.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..25e5f93 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -208,9 +208,10 @@ class reader_writer_mutex
         M_insist(not rw_.reader_wants_upgrade() or rw_.writers_waiting() != 0,
                  "if a reader wants to upgrade, it must be waiting to claim the write lock");
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
-            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
+            /* There is a single active reader remaining, that wants to upgrade to a writer.  Regular writers may be
+             * waiting on the same condition variable, so we must notify all to be sure to reach that reader. */
             lock.unlock();
-            notify_writer();
+            cv_writers_.notify_all();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From 186cc7bc01453493bb796915d7ecc681995e66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 07/46] fix: move assignment of reader_writer_lock must
 transfer ownership

The defaulted operator copies the state, such that both guards release the lock
of the source and nobody releases the lock held by the target.
---
 include/mutable/util/reader_writer_lock.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 25e5f93..906f601 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -262,7 +262,12 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        using std::swap;
+        swap(rw_mutex_, other.rw_mutex_);
+        swap(state_,    other.state_);
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From bc6e673af04850ea7fab5f682d1a9313ad35844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 08/46] fix: upgrade_lock::upgrade() must release the read lock
 on failure

The documentation promises it, and a caller that retries with lock() relies on
it.  Holding on to the read lock deadlocks with the reader that upgrades.
---
 include/mutable/util/reader_writer_lock.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 906f601..161b64f 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -400,6 +400,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From 003fba3bb9a7e96c7b779c4063acd6f6f7956f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 09/46] fix: scheduler must not search the command queue
 backwards out of bounds

push() passed rend() and rbegin() in the wrong order, hence dereferenced the
past-the-end element as soon as a command was waiting in the queue.  The
positions derived from the result of that search are corrected, too.
---
 src/catalog/SerialScheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..7df9cf0 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -48,15 +48,15 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
 
     /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
      * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
-    if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
+    if (it != command_list_.rend()) // insert behind the last command of `t`
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise));
+    else if (running_transaction_ and *running_transaction_ == t)
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
-        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From b32ceedb22a90030b55fc36fa559625a75f5aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 10/46] fix: scheduler: ending a transaction must not stop
 another one

---
 src/catalog/SerialScheduler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 7df9cf0..94b29cf 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -82,8 +82,9 @@ bool SerialScheduler::CommandQueue::is_closed()
 
 void SerialScheduler::CommandQueue::stop_transaction(Transaction &t) {
     std::unique_lock<std::mutex> lock(mutex_);
-    M_insist(&t == running_transaction_);
-    running_transaction_ = nullptr;
+    /* A transaction that never got to execute a command is not the running one: do not stop another transaction. */
+    if (running_transaction_ == &t)
+        running_transaction_ = nullptr;
     lock.unlock();
     has_element_.notify_one();
 }
-- 
2.43.0


From 5f75bb8cfd0be8bfc5c17e644cc281e624d600b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 11/46] fix: scheduler: a command that failed must not be
 reported as successful

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 94b29cf..bbb1526 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -157,7 +157,7 @@ void SerialScheduler::schedule_thread()
         if (not err and cmd) {
             cmd->transaction(&t);
             cmd->execute(diag);
-            promise.set_value(true);
+            promise.set_value(diag.num_errors() == 0); // execution errors
             continue;
         }
         promise.set_value(false);
-- 
2.43.0


From 2dd4a62cd85d45222dac4c9bad65c0fb05dedbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 12/46] fix: scheduler: start the worker thread exactly once

---
 src/catalog/SerialScheduler.cpp | 5 ++---
 src/catalog/SerialScheduler.hpp | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index bbb1526..e8cfa59 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -106,9 +106,8 @@ std::future<bool> SerialScheduler::schedule_command(Transaction &t, std::unique_
     auto execution_completed_future = execution_completed.get_future();
     query_queue_.push(t, std::move(command), diag, std::move(execution_completed));
 
-    if (not schedule_thread_.joinable()) [[unlikely]]
-        // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
-        schedule_thread_ = std::thread(schedule_thread);
+    // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
+    std::call_once(schedule_thread_started_, [this]() { schedule_thread_ = std::thread(schedule_thread); });
     return execution_completed_future;
 }
 
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index d2dcc55..a6e6046 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -4,6 +4,7 @@
 #include <condition_variable>
 #include <list>
 #include <future>
+#include <mutex>
 #include <thread>
 
 
@@ -42,6 +43,7 @@ struct SerialScheduler : Scheduler
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
     std::thread schedule_thread_; ///< the worker thread that executes all incoming queries.
+    std::once_flag schedule_thread_started_; ///< several clients may schedule the first command concurrently
 
     static std::atomic<int64_t> next_start_time; ///< stores the next transaction start time
 
-- 
2.43.0


From d642896864baab789286bbf4c1734b165b106e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 13/46] fix: scheduler: do not abort on a command with syntax
 errors that is semantically fine

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index e8cfa59..b688538 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -152,7 +152,7 @@ void SerialScheduler::schedule_thread()
         auto cmd = sema.analyze(std::move(ast));
         err |= diag.num_errors() > 0; // sema errors
 
-        M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
+        M_insist(err or bool(cmd), "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
             cmd->transaction(&t);
             cmd->execute(diag);
-- 
2.43.0


From e5b83a62607fff0c9589a3a1787bf2ad524084bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 14/46] fix: CREATE TABLE of an existing table must not
 dereference the table that was not created

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..14c2f78 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -268,6 +268,7 @@ void CreateTable::execute(Diagnostic &diag)
         table = &DB.add(std::move(table_));
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
+        return;
     }
 
     table->layout(C.data_layout());
-- 
2.43.0


From f86a2deafa6f3016f9316426809e0485a8307969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 15/46] fix: CREATE INDEX must not add an index that could not
 be built

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 14c2f78..2789555 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -314,6 +314,7 @@ void CreateIndex::execute(Diagnostic &diag)
         M_TIME_EXPR(index_->bulkload(table, schema), "Bulkload index", C.timer());
     } catch (invalid_argument) {
         diag.err() << "Could not bulkload index." << '\n';
+        return;
     }
 
     /* Add index to database. */
-- 
2.43.0


From c92e924b12d32b5cecfd7f2a1069c9a05e8f38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 16/46] fix: INSERT: NULL and DEFAULT must apply to the right
 attribute of the current row

---
 src/catalog/DatabaseCommand.cpp | 3 ++-
 src/mutable.cpp                 | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 2789555..ac679b6 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -149,13 +149,14 @@ void InsertRecords::execute(Diagnostic&)
 
     /* Write all tuples to the store. */
     for (auto &t : I.tuples) {
+        tup.clear(); // do not carry over values of the previous tuple
         StackMachine get_tuple(Schema{});
         for (std::size_t i = 0; i != t.size(); ++i) {
             auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
             auto &v = t[i];
             switch (v.first) {
                 case ast::InsertStmt::I_Null:
-                    get_tuple.emit_St_Tup_Null(0, i);
+                    get_tuple.emit_St_Tup_Null(0, attr_id);
                     break;
 
                 case ast::InsertStmt::I_Default:
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 372fd31..ae7183d 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -196,6 +196,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
 
         /* Write all tuples to the store. */
         for (auto &t : I->tuples) {
+            tup.clear(); // do not carry over values of the previous tuple
             StackMachine get_tuple(Schema{});
             for (std::size_t i = 0; i != t.size(); ++i) {
                 auto &v = t[i];
-- 
2.43.0


From 98011ed86c9003dad84932987a0fcac4d873ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 17/46] fix: cloning a tuple must preserve NULL

---
 src/IR/Tuple.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..644f525 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,7 +125,9 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
-        if (S[i].type->is_character_sequence()) {
+        if (is_null(i)) {
+            cpy.null(i);
+        } else if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
         } else {
-- 
2.43.0


From 2e2c46dcf040018155f122c2626d39452c2a946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 18/46] fix: importing rows must invalidate the indexes of the
 table

---
 src/catalog/DatabaseCommand.cpp |  7 +++++++
 src/mutable.cpp                 | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index ac679b6..308a039 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -217,6 +217,13 @@ void ImportDSV::execute(Diagnostic &diag)
     } catch (m::invalid_argument e) {
         diag.err() << "Error reading DSV file: " << e.what() << "\n";
     }
+
+    /* Invalidate all indexes on the table. */
+    if (C.has_database_in_use()) {
+        auto &DB = C.get_database_in_use();
+        if (DB.has_table(table_.name()))
+            DB.invalidate_indexes(table_.name());
+    }
 }
 
 
diff --git a/src/mutable.cpp b/src/mutable.cpp
index ae7183d..2134423 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -220,6 +220,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
             get_tuple(args);
             W.append(tup);
         }
+        /* Invalidate all indexes on the table. */
+        DB.invalidate_indexes(T.name());
     } else if (auto S = cast<const ast::CreateDatabaseStmt>(&stmt)) {
         C.add_database(S->database_name.text.assert_not_none());
     } else if (auto S = cast<const ast::DropDatabaseStmt>(&stmt)) {
@@ -291,6 +293,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
         } catch (m::invalid_argument e) {
             diag.err() << "Error reading DSV file: " << e.what() << "\n";
         }
+        /* Invalidate all indexes on the table. */
+        DB.invalidate_indexes(T.name());
     }
 
     if (Options::Get().times) {
@@ -404,6 +408,13 @@ void m::load_from_CSV(Diagnostic &diag, Table &table, const std::filesystem::pat
         R(file, path.c_str()); // read the file
     }
 
+    /* Invalidate all indexes on the table. */
+    if (auto &C = Catalog::Get(); C.has_database_in_use()) {
+        auto &DB = C.get_database_in_use();
+        if (DB.has_table(table.name()))
+            DB.invalidate_indexes(table.name());
+    }
+
     if (diag.num_errors() != 0)
         throw runtime_error("error while reading CSV file");
 }
-- 
2.43.0


From b0d25f16c8cf13c54ca2bfd4af0f897b7dc88853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 19/46] fix: DSVReader: a row with too many cells must not
 leave an uninitialized row behind

---
 src/io/DSVReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..4cf9620 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -125,6 +125,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the row that is not written
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From 8accf20927d760171707f74ec578f3aded5ff360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 20/46] fix: DSVReader: an empty last cell is NULL also at the
 end of the file

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 4cf9620..7b87291 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -111,7 +111,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and (c == '\n' or c == EOF)) or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
-- 
2.43.0


From b70e7f4927fb4890f91353bf92bfc33bedc64368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 21/46] fix: DSVReader: an invalid boolean must not keep the
 value of the previous row

---
 src/io/DSVReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 7b87291..4f58108 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -163,8 +163,10 @@ void DSVReader::operator()(Const<Boolean>&)
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx);
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
-- 
2.43.0


From e03fab1e9ed7c9c108e1f171aaed9bf0706be9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 22/46] fix: DSVReader: clamp too small floating-point numbers
 to the smallest number

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 4f58108..95603e8 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -361,7 +361,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 d = std::numeric_limits<double>::max();
             } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = std::numeric_limits<double>::lowest();
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
-- 
2.43.0


From 9256a1e1e7aeb6118c5296c8318ab6b4d8c72e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 23/46] fix: DSVReader: an escape character at the end of the
 file escapes nothing

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 95603e8..c694bcb 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -196,7 +196,7 @@ void DSVReader::operator()(Const<CharacterSequence>&)
                     break;
                 } else if (c == config().escape) {
                     step();
-                    push();
+                    if (c != EOF) push();
                 } else {
                     push();
                 }
-- 
2.43.0


From 8bd8626e96bb7739ce47669102d055f0f7830601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 24/46] fix: interpreter: ORDER BY must order NULL

---
 src/backend/Interpreter.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..0fd3e48 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1594,6 +1594,21 @@ void Interpreter::operator()(const SortingOperator &op)
 
     StackMachine comparator(data->pipeline.schema());
     for (auto o : orderings) {
+        auto emit_is_null = [&](std::size_t tuple_id) {
+            comparator.emit(o.first.get(), tuple_id);
+            comparator.emit_Is_Null();
+        };
+
+        /* NULL precedes all values, independent of the direction of the ordering. */
+        emit_is_null(2); // RHS
+        emit_is_null(1); // LHS
+        comparator.emit_Cmp_b();
+        comparator.emit_St_Tup_i(0, 0);
+        comparator.emit_Stop_NZ();
+
+        /* Either both or none are NULL.  Two NULLs are equal. */
+        emit_is_null(1);
+        comparator.add_and_emit_load(int64_t(0));
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1624,6 +1639,7 @@ void Interpreter::operator()(const SortingOperator &op)
 
         if (not o.second)
             comparator.emit_Minus_i(); // sort descending
+        comparator.emit_Sel();
         comparator.emit_St_Tup_i(0, 0);
         comparator.emit_Stop_NZ();
     }
-- 
2.43.0


From b1eaa41a212bc79ca4e1849fdcc024d245bd9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 25/46] fix: interpreter: hash join must not match NULL keys

---
 src/backend/Interpreter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 0fd3e48..4af0b11 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -704,6 +704,15 @@ struct SimpleHashJoinData : JoinData
         key = Tuple(key_schema);
     }
 
+    /** Returns `true` iff any part of the current key is `NULL`. */
+    bool has_null_key() const {
+        for (std::size_t i = 0; i != key_schema.num_entries(); ++i) {
+            if (key.is_null(i))
+                return true;
+        }
+        return false;
+    }
+
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
@@ -1005,6 +1014,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->has_null_key()) continue; // NULL has no join partner
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
@@ -1038,6 +1048,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->has_null_key()) continue; // NULL has no join partner
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
-- 
2.43.0


From afc006c6f19bc2d94f80fbc26cf1a8129c706e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 26/46] fix: failed ConcreteTable::push_back must not leave the
 attribute name in use

---
 include/mutable/catalog/Schema.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..d88fc78 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -722,10 +722,11 @@ struct M_EXPORT ConcreteTable : Table
     /** Adds a new attribute with the given `name` and `type` to the table.  Throws `std::invalid_argument` if the
      * `name` is already in use. */
     void push_back(ThreadSafePooledString name, const PrimitiveType *type) override {
-        auto res = name_to_attr_.emplace(name, attrs_.size());
+        Attribute attr(attrs_.size(), *this, type, name); // may throw, hence before registering the name
+        auto res = name_to_attr_.emplace(std::move(name), attrs_.size());
         if (not res.second)
             throw std::invalid_argument("attribute name already in use");
-        attrs_.emplace_back(Attribute(attrs_.size(), *this, type, std::move(name)));
+        attrs_.emplace_back(std::move(attr));
     }
 
     /** Returns a `Schema` for this `Table` given the alias `alias`. */
-- 
2.43.0


From 965cc53aa9c3328a653abb47d2c7fba7873dea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 27/46] fix: CNF::to_sql and Clause::to_sql must print SQL, not
 the dump format

---
 src/IR/CNF.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 8ce3c18..33dbeb1 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -112,13 +112,15 @@ void cnf::Clause::to_sql(std::ostream &out) const
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " OR ";
-                out << '(' << *it << ')';
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
@@ -131,14 +133,12 @@ void CNF::to_sql(std::ostream &out) const
             out << "TRUE";
             return;
 
-        case 1:
-            out << *begin();
-            return;
-
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " AND ";
-                out << *it;
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
-- 
2.43.0


From 1d523235400752e4ee91a069084677ce3dad1714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 28/46] fix: Constant::is_integer must recognize hexadecimal
 integers

---
 include/mutable/parse/AST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/parse/AST.hpp b/include/mutable/parse/AST.hpp
index 3c5adb7..ab4c300 100644
--- a/include/mutable/parse/AST.hpp
+++ b/include/mutable/parse/AST.hpp
@@ -228,7 +228,7 @@ struct M_EXPORT Constant : Expr
     bool is_null() const { return tok.type == TK_Null; }
     bool is_bool() const { return tok.type == TK_True or tok.type == TK_False; }
     bool is_number() const { return is_integer() or is_float(); }
-    bool is_integer() const { return tok.type == TK_OCT_INT or tok.type == TK_DEC_INT or tok.type == TK_HEX_FLOAT; }
+    bool is_integer() const { return tok.type == TK_OCT_INT or tok.type == TK_DEC_INT or tok.type == TK_HEX_INT; }
     bool is_float() const { return tok.type == TK_DEC_FLOAT or tok.type == TK_HEX_FLOAT; }
     bool is_string() const { return tok.type == TK_STRING_LITERAL; }
     bool is_date() const { return tok.type == TK_DATE; }
-- 
2.43.0


From c508f228f74c26ba8c85d5184687241a46df299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 29/46] fix: execute_statement: INSERT must not write into
 hidden attributes

---
 src/mutable.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index 2134423..4375e73 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -199,10 +199,11 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
             tup.clear(); // do not carry over values of the previous tuple
             StackMachine get_tuple(Schema{});
             for (std::size_t i = 0; i != t.size(); ++i) {
+                auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
                 auto &v = t[i];
                 switch (v.first) {
                     case ast::InsertStmt::I_Null:
-                        get_tuple.emit_St_Tup_Null(0, i);
+                        get_tuple.emit_St_Tup_Null(0, attr_id);
                         break;
 
                     case ast::InsertStmt::I_Default:
@@ -211,8 +212,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
 
                     case ast::InsertStmt::I_Expr:
                         get_tuple.emit(*v.second);
-                        get_tuple.emit_Cast(S[i].type, v.second->type());
-                        get_tuple.emit_St_Tup(0, i, S[i].type);
+                        get_tuple.emit_Cast(S[attr_id].type, v.second->type());
+                        get_tuple.emit_St_Tup(0, attr_id, S[attr_id].type);
                         break;
                 }
             }
-- 
2.43.0


From 5a4f2c0ddcdb67ebfd437707af1936138cf393a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:02 +0000
Subject: [PATCH 30/46] fix: multi-versioning: timestamp filter must use the
 name of the data source in the query

A table may be renamed in the FROM clause.  The designators of the timestamp filter referred to the name of the table
rather than to its alias, and hence to no attribute of the scan.
---
 src/catalog/Schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index c6e548e..08b853d 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -169,7 +169,7 @@ void apply_timestamp_filter(QueryGraph &G)
                                    });
 
             if (it != bt->table().end_hidden()) {
-                ast::Token table_name(pos, bt->table().name(), TK_EOF);
+                ast::Token table_name(pos, bt->name().assert_not_none(), TK_EOF); // name in the query, i.e. the alias if any
                 /*----- Build AST -----*/
                 // $ts_begin
                 std::unique_ptr<ast::Expr> ts_begin_designator = std::make_unique<ast::Designator>(
-- 
2.43.0


From 47553aaef3d73657e0532e461bfe8f0062eb8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 31/46] fix: interpreter: scan of a renamed table

The attributes of a scan carry the name of the data source in the query, i.e. the alias of the table if there is one.
Loading from the store must use a layout schema with the same names, or else no attribute of the scan is found.
---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 4af0b11..18741ce 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -912,7 +912,7 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From 120dff8a08c64dd2ff7bd57bd23a8855b4e1567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 32/46] fix: interpreter: sort over no rows

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 18741ce..f5ef8f7 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1597,7 +1597,7 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
+    auto data = cast<SortingData>(op.data());
     if (not data) // no tuples produced
         return;
 
-- 
2.43.0


From db33a89cc679e6ab90fb46645cc531c4a535cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 33/46] fix: interpreter: hash join only on keys of equal types

---
 src/backend/Interpreter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index f5ef8f7..74458db 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1458,7 +1458,16 @@ void Interpreter::operator()(const DisjunctiveFilterOperator &op)
 
 void Interpreter::operator()(const JoinOperator &op)
 {
-    if (op.predicate().is_equi()) {
+    /* The hash join compares keys by their values, which requires that both sides of a comparison have the same type. */
+    auto operands_have_equal_types = [](const cnf::CNF &cnf) {
+        for (auto &clause : cnf) {
+            auto &binary = as<const ast::BinaryExpr>(clause[0].expr());
+            if (binary.lhs->type() != binary.rhs->type()) return false;
+        }
+        return true;
+    };
+
+    if (op.predicate().is_equi() and operands_have_equal_types(op.predicate())) {
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-- 
2.43.0


From 6d4772772d253f1a3db0896782beeace1a4cf17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 34/46] fix: interpreter: hash join on a negated `!=`

---
 src/backend/Interpreter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 74458db..016677b 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -669,10 +669,9 @@ struct SimpleHashJoinData : JoinData
         for (auto &clause : pred) {
             M_insist(clause.size() == 1, "invalid predicate for simple hash join");
             auto &literal = clause[0];
-            M_insist(not literal.negative(), "invalid predicate for simple hash join");
             auto &expr = literal.expr();
             auto binary = as<const ast::BinaryExpr>(&expr);
-            M_insist(binary->tok == TK_EQUAL);
+            M_insist(literal.is_equi(), "invalid predicate for simple hash join"); // `=` or negated `!=`
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
-- 
2.43.0


From 41e01dd69357cbf64dbe9b303117101839418ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 35/46] fix: interpreter: AVG ignores NULLs

---
 src/backend/Interpreter.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 016677b..e254080 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -779,18 +779,18 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<unsigned> num_values; ///< per aggregate, the number of values that are not NULL
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
     AggregationData(const AggregationOperator &op)
         : pipeline(op.schema())
+        , num_values(op.aggregates().size(), 0)
     {
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -846,9 +846,9 @@ struct HashBasedGroupingData : GroupingData
         }
     };
 
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds,
+     * per aggregate, the number of values of this group that are not NULL. */
+    std::unordered_map<Tuple, std::vector<unsigned>, hasher, equals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1192,7 +1192,6 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1250,7 +1249,7 @@ void Pipeline::operator()(const GroupingOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++entry.second[i];
                     break;
                 }
 
@@ -1305,7 +1304,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<unsigned>(op.aggregates().size(), 0));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1315,10 +1314,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1360,7 +1357,7 @@ void Pipeline::operator()(const AggregationOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++data->num_values[i];
                     break;
                 }
 
-- 
2.43.0


From 04b083cf16dfa474c72edb9ac55f6775e086a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 36/46] fix: interpreter: hash join refills its block after
 passing it on

---
 src/backend/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e254080..b47cf64 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1018,6 +1018,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the parents may have removed tuples
                         i = 0;
                     }
 
-- 
2.43.0


From ed714dc6fd8d0bd2548fccfcde4a3ec0c35493cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:51 +0000
Subject: [PATCH 37/46] fix: interpreter: % on decimals scales its operands

---
 src/backend/StackMachine.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 3588f54..74dc38c 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -436,7 +436,15 @@ void StackMachineBuilder::operator()(Const<ast::BinaryExpr> &e)
 
         case TK_PERCENT:
             (*this)(*e.lhs);
+            if (ty->is_decimal()) {
+                scale(ty_lhs, ty);
+                emit_cast(ty_lhs, ty);
+            }
             (*this)(*e.rhs);
+            if (ty->is_decimal()) {
+                scale(ty_rhs, ty);
+                emit_cast(ty_rhs, ty);
+            }
             stack_machine_.emit_Mod_i();
             break;
 
-- 
2.43.0


From 81ef2511bfdd4348f1290a7c056b0dccbd22e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 38/46] fix: LIKE wildcards in constant patterns must match
 line terminators

---
 include/mutable/util/fn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a349555..8d0cef0 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -349,10 +349,10 @@ inline std::regex pattern_to_regex(const char *pattern, const bool optimize = fa
                 ss << *c;
                 break;
             case '%':
-                ss << "(.*)";
+                ss << "[\\s\\S]*"; // any characters, including line terminators
                 break;
             case '_':
-                ss << '.';
+                ss << "[\\s\\S]"; // any character, including line terminators
                 break;
             case '[':
             case ']':
-- 
2.43.0


From 5bd54cc5c0a73a262822b0a95a65cf96203bfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 39/46] fix: DSVReader: a sign or dot without digits is no
 number

---
 src/io/DSVReader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index c694bcb..43b073b 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -294,8 +294,9 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
+            const bool has_digits = is_dec(c);
             int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not has_digits or (c != EOF and c != '\n' and c != config().delimiter)) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
                 while (c != EOF and c != '\n' and c != config().delimiter) step();
@@ -314,10 +315,12 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
+            bool has_digits = is_dec(c);
             int64_t d = read_unsigned_int();
             // std::cerr << "Read: " << d;
             d = d * powi(10, scale);
             if (accept('.')) {
+                has_digits |= is_dec(c);
                 /* Read post dot digits. */
                 int64_t post_dot = 0;
                 auto n = scale;
@@ -331,7 +334,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 while (is_dec(c)) { step(); }
                 d += d >= 0 ? post_dot : -post_dot;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not has_digits or (c != EOF and c != '\n' and c != config().delimiter)) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
                 while (c != EOF and c != '\n' and c != config().delimiter) step();
-- 
2.43.0


From e2973f738185a5c99621d4a7c0d30718a3e21f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 40/46] fix: DSVReader: skipping an empty header line must not
 skip the first row

---
 src/io/DSVReader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 43b073b..9a5e61d 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -79,8 +79,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
-            c = '\n';
+            discard_row(); // skip entire line, which may be empty
             step(); // skip newline
         }
     }
-- 
2.43.0


From 0cb083d076954b29c9b2df0db9bad49dc442d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 41/46] fix: DSVReader: skipping a quoted cell must respect
 escaped quotes and line breaks

---
 include/mutable/io/Reader.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..fb92731 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -121,12 +121,19 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
 
     void discard_cell() {
-        if (c == config().quote) {
-            step();
-            while (c != EOF and c != '\n' and c != config().quote) { step(); }
-            accept(config().quote);
-        } else
-            while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+        if (accept(config().quote)) {
+            while (c != EOF) {
+                if (c == config().quote) {
+                    step();
+                    if (config().escape != config().quote or c != config().quote) break; // end of quoted cell
+                } else if (c == config().escape) {
+                    step();
+                    if (c == EOF) break;
+                }
+                step();
+            }
+        }
+        while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
-- 
2.43.0


From c4c25a1661ae384809572b9b220796da387823d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 42/46] fix: DECIMAL types of up to two digits take a byte

---
 include/mutable/catalog/Type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..f723b9b 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <exception>
 #include <functional>
 #include <mutable/util/fn.hpp>
@@ -434,7 +435,8 @@ private:
         switch (kind) {
             case N_Int: return 8 * precision;
             case N_Float: return precision;
-            case N_Decimal: return ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision)));
+            case N_Decimal: // at least one byte
+                return std::max(ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision))), 8U);
         }
         M_unreachable("illegal kind");
     }
-- 
2.43.0


From e45c1f5c9d044b3265543cb009f64ffc689eb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 43/46] fix: RowLayoutFactory: align attributes that are not
 reordered

---
 src/storage/DataLayoutFactory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 0454bf5..48430bf 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -99,6 +99,8 @@ DataLayout RowLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
 
     for (std::size_t idx = 0; idx != types.size(); ++idx) {
         const auto mapped_idx = indices[idx];
+        if (uint64_t rem = offset_in_bits % types[mapped_idx]->alignment(); rem)
+            offset_in_bits += types[mapped_idx]->alignment() - rem; // only necessary without reordering
         offsets[mapped_idx] = offset_in_bits;
         offset_in_bits += types[mapped_idx]->size();
         alignment_in_bits = std::max(alignment_in_bits, types[mapped_idx]->alignment());
-- 
2.43.0


From 054a0f9f50a5daf0b22d73983e79d5c65bce9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 44/46] fix: PAXLayoutFactory: blocks must hold the padding of
 columns that are not byte-aligned

---
 src/storage/DataLayoutFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 48430bf..3f039dc 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -176,13 +176,15 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
         /* Compute number of rows within a PAX block. Consider worst case padding of 7 bits (because each column within
          * a PAX block must be byte aligned) for every possibly not byte-aligned attribute column. Null bitmap column is
          * ignored since it is the last column. */
-        num_rows_per_block = std::max<std::size_t>(1, (num_bytes_ * 8 - num_not_byte_aligned * 7) / row_size_in_bits);
+        const uint64_t padding_in_bits = num_not_byte_aligned * 7;
+        num_rows_per_block = num_bytes_ * 8 <= padding_in_bits
+                           ? 1 : std::max<std::size_t>(1, (num_bytes_ * 8 - padding_in_bits) / row_size_in_bits);
         if (num_rows_per_block > num_simd_lanes)
             num_rows_per_block =
                 (num_rows_per_block / num_simd_lanes) * num_simd_lanes; // floor to multiple of possible number of SIMD lanes
         if (options::pax_pack_one_tuple_less and num_rows_per_block > 1)
             --num_rows_per_block;
-        num_blocks_per_row = (row_size_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
+        num_blocks_per_row = (row_size_in_bits + padding_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
     }
 
     /*----- Compute column offsets. -----*/
-- 
2.43.0


From d85c982d1dd942b0c0641fa03eb4c6e24610f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 45/46] fix: PAXLayoutFactory: no strides in blocks of one
 tuple

---
 src/storage/DataLayoutFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 3f039dc..326de33 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -217,13 +217,13 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     DataLayout layout(num_tuples);
     auto &pax_block = layout.add_inode(num_rows_per_block, num_blocks_per_row * block_size_in_bits);
     for (std::size_t idx = 0; idx != types.size(); ++idx)
-        pax_block.add_leaf(types[idx], idx, offsets[idx], types[idx]->size());
+        pax_block.add_leaf(types[idx], idx, offsets[idx], num_rows_per_block == 1 ? 0 : types[idx]->size());
     if (not options::remove_null_bitmap) {
         pax_block.add_leaf( // add NULL bitmap
             /* type=           */ Type::Get_Bitmap(Type::TY_Vector, types.size()),
             /* idx=            */ types.size(),
             /* offset_in_bits= */ offsets[types.size()],
-            /* stride_in_bits= */ null_bitmap_size_in_bits
+            /* stride_in_bits= */ num_rows_per_block == 1 ? 0 : null_bitmap_size_in_bits
         );
     }
 
-- 
2.43.0


From f66b2e98354077bf1b913e54aec93ac0c0c40e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:06 +0000
Subject: [PATCH 46/46] fix: AdjacencyMatrix: enumerate connected subgraphs
 such that DPccp has considered all plans of a subproblem before using it

---
 include/mutable/util/AdjacencyMatrix.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mutable/util/AdjacencyMatrix.hpp b/include/mutable/util/AdjacencyMatrix.hpp
index 60255e0..0a1f745 100644
--- a/include/mutable/util/AdjacencyMatrix.hpp
+++ b/include/mutable/util/AdjacencyMatrix.hpp
@@ -163,18 +163,20 @@ exit:
         for (auto it = source.begin(); it != source.end(); ++it) {
             const SmallBitset I = it.as_set();
             M_insist(I.is_singleton());
+            callback(I);
             Q.emplace_back(I, source & ~I.mask_to_lo()); // exclude larger sources
 
             while (not Q.empty()) {
                 auto [S, X_old] = Q.front();
                 Q.pop_front();
 
-                callback(S);
-
                 const SmallBitset N = (neighbors(S) & super) - X_old;
                 const SmallBitset X_new = X_old | N;
-                for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
-                    Q.emplace_back(S | n, X_new);
+                auto pos = Q.begin(); // depth-first (breadth-first would enumerate some CSGs before their subsets)
+                for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) { // enumerate 2^{neighbors of S}
+                    callback(S | n);
+                    pos = std::next(Q.emplace(pos, S | n, X_new));
+                }
             }
         }
     }
-- 
2.43.0

