From 20d25440ae404fe973f67a28d79d9b108558cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 01/32] fix: give back the real stderr after a case

The constructor replaced sys.stderr with None before open() saved it, so close() had nothing to restore.
---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..2fb4242 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From 64a83b03bc3f443e557bff95abed9baaab054eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 02/32] fix: environment mocks restore variables that are
 already absent

Deleting an absent variable raised KeyError, which left the remaining variables mocked.
---
 booktest/env.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..0531976 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -40,7 +40,7 @@ class SnapshotEnv:
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-                    del os.environ[name]
+                    os.environ.pop(name, None)
                 else:
                     os.environ[name] = self.snaphots[name]
                 self.capture[name] = value
@@ -54,7 +54,7 @@ class SnapshotEnv:
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
@@ -116,14 +116,14 @@ class MockMissingEnv:
 
             if old_value is None:
                 if value is None:
-                    del os.environ[name]
+                    os.environ.pop(name, None)
                 else:
                     os.environ[name] = value
 
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
-- 
2.43.0


From 7626b4c8d1ed079d46cc8ee68f10108e5f81dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 03/32] fix: undo environment changes when starting a mock
 fails part-way

A missing snapshot (or an invalid value) of one variable left the variables before it changed for all later cases.
---
 booktest/env.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index 0531976..6c7ed43 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -67,7 +67,11 @@ class SnapshotEnv:
             self.t.tln(f" * {name}={value}")
 
     def __enter__(self):
-        self.start()
+        try:
+            self.start()
+        except BaseException:
+            self.stop()
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.stop()
@@ -128,7 +132,11 @@ class MockMissingEnv:
                 os.environ[name] = self._old_env[name]
 
     def __enter__(self):
-        self.start()
+        try:
+            self.start()
+        except BaseException:
+            self.stop()
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.stop()
@@ -162,15 +170,19 @@ class MockEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
 
-            if value is None:
-                if name in os.environ:
-                    del os.environ[name]
-            else:
-                os.environ[name] = value
+                if value is None:
+                    if name in os.environ:
+                        del os.environ[name]
+                else:
+                    os.environ[name] = value
+        except BaseException:
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
-- 
2.43.0


From 5fc46f7c7029500b44071b99eee3f87ebe12dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 04/32] fix: snapshot_env restores a variable that was named
 twice

---
 booktest/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index 6c7ed43..cabee69 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -36,7 +36,7 @@ class SnapshotEnv:
         self._old_env = {}
         for name in self.names:
             old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+            self._old_env.setdefault(name, old_value)
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-- 
2.43.0


From c495eaff4e122c19c6c13050a59036c0ae1d77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 05/32] fix: mock_missing_env does not mock while snapshots are
 captured

_do_mock was computed for this and never used, so a mocked value could end up in captured snapshots.
---
 booktest/env.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/env.py b/booktest/env.py
index cabee69..fb80e72 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -114,6 +114,9 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
+        if not self._do_mock:
+            return
+
         for name, value in self.env.items():
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
-- 
2.43.0


From 416e3a6545056e10380e5592748727b6b17f0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 06/32] fix: tokenizer ends on text with NUL characters

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 2aa343dfbea25c0de21ebdf4300c32ef13d15310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 07/32] fix: use the custom request hash also for repeated
 requests

---
 booktest/httpx.py    | 3 ++-
 booktest/requests.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..0890bf3 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -56,6 +56,7 @@ class RequestKey:
             json_object["hash"] = hash_code
 
         self.json_object = json_object
+        self.json_to_hash = json_to_hash
         self.hash = hash_code
 
     def increase_order(self):
@@ -63,7 +64,7 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..40306e4 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -66,6 +66,7 @@ class RequestKey:
             json_object["hash"] = hash_code
 
         self.json_object = json_object
+        self.json_to_hash = json_to_hash
         self.hash = hash_code
 
     def increase_order(self):
@@ -73,7 +74,7 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From 0c74923eced66e5021179c01ad8d79b800efc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 08/32] fix: dependency results are returned also when the
 cache does not keep them

NoCache had no __contains__, so the membership test iterated forever, and the loaded value was looked up from the cache again.
---
 booktest/cache.py   | 3 +++
 booktest/testrun.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..a273015 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -66,6 +66,7 @@ class TestRun:
                         with open(bin_path, 'rb') as file:
                             rv = pickle.load(file)
                             self.cache[bin_path] = rv
+                            return True, rv
                     else:
                         raise Exception(
                             f"case {case.name} dependency {t[0]}" +
-- 
2.43.0


From 0650ff8958c19e9989181e581fdf12083a8e3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 09/32] fix: do not destroy the accepted files when there is no
 result to accept

---
 booktest/review.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..247b241 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,10 +90,11 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
-    # destroy old test related files
+    # destroy old test related files. the text is moved first: if it is not there,
+    # nothing is accepted and nothing may be lost
+    os.rename(out_file_name, exp_file_name)
     if path.exists(exp_dir_name):
         shutil.rmtree(exp_dir_name)
-    os.rename(out_file_name, exp_file_name)
     if path.exists(out_dir_name):
         os.rename(out_dir_name, exp_dir_name)
 
-- 
2.43.0


From 6c2af5450a322588776f09cdb60b6b600539cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 10/32] fix: parallel workers do not accept results

With -p -u or -p -a the worker moved the result into place, and the main process then
failed when accepting it again.
---
 booktest/runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..ecf823a 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -146,6 +146,9 @@ class ParallelRunner:
         job_config["continue"] = False
         job_config["interactive"] = False
         job_config["always_interactive"] = False
+        # results are reviewed and accepted in the main process
+        job_config["update"] = False
+        job_config["accept"] = False
 
         self.batches_dir = batches_dir
         self.run_batch = RunBatch(exp_dir, out_dir, tests, job_config, setup)
-- 
2.43.0


From cca4c093b211cbff1eeea56742e2c52e2c9b4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 11/32] fix: a missing or empty worker report is a failed case

The verdict was given as text, which the main process cannot write, and an empty report
killed the scheduler thread, so that the run never ended.
---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index ecf823a..20f8452 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -231,8 +231,9 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                cases = CaseReports.of_file(report_file).cases
+                if len(cases) > 0:
+                    reports.append(cases[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From 8b232689dbcd015c28f1709e2a50ca78e4fb480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 12/32] fix: a case calling sys.exit() is a failed case

It ended a serial run, possibly with exit status 0, and it killed the worker process of a
parallel run, which then never ended.
---
 booktest/runs.py    | 4 +++-
 booktest/testrun.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 20f8452..b400653 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -76,6 +76,8 @@ class RunBatch:
 
         output = open(output_file, "w")
 
+        rv = test_result_to_exit_code(TestResult.FAIL)
+
         try:
             run = TestRun(
                 self.exp_dir,
@@ -89,7 +91,7 @@ class RunBatch:
 
             with self.setup.setup_teardown():
                 rv = test_result_to_exit_code(run.run())
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             print(f"{case} failed with {e}")
             traceback.print_exc()
         finally:
diff --git a/booktest/testrun.py b/booktest/testrun.py
index a273015..5edfcaf 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -95,7 +95,7 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From d666a945c47e0b98e21f5bf2336b6c9e1c0e980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 13/32] fix: exit status of an interrupted or aborted parallel
 run

An interrupted run and the failures recorded after an abort did not count.
---
 booktest/runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index b400653..6f9a017 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -363,6 +363,7 @@ def parallel_run_tests(exp_dir,
                         duration)
 
             except KeyboardInterrupt as e:
+                exit_code = -1
                 runner.abort()
                 for i in runner.todo - runner.done:
                     print(f"  {i}..interrupted")
@@ -385,6 +386,8 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
+                    if result != TestResult.OK:
+                        exit_code = -1
                     record_case(
                         case_name,
                         result,
-- 
2.43.0


From d60eb3bb226a5de8dc842e55ec90a8044e139df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 14/32] fix: options of one invocation do not leak into the
 next one

---
 booktest/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..db64c6e 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,8 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        # options must not leak into later invocations
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From 2c326da3b71275e1ff545112bce9006b7123fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 15/32] fix: read the .booktest file of the home directory

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From 39696bfcb00c22d08ad4785f11e44f613f6e7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 16/32] fix: run_tests_async awaits the run instead of its exit
 code

---
 booktest/runs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 6f9a017..46a2c85 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -466,7 +466,7 @@ async def run_tests_async(exp_dir,
         cache)
 
     with setup.setup_teardown():
-        rv = await test_result_to_exit_code(run.run())
+        rv = test_result_to_exit_code(await run.run_async())
 
     return rv
 
-- 
2.43.0


From 9637ef6e5baecc68e1e2dccac874e5a8e9ac916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 17/32] fix: httpx snapshots with binary content can be
 replayed

---
 booktest/httpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 0890bf3..2aed638 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -138,7 +138,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-- 
2.43.0


From af7e0de040a8054a83a01dd8ced3256c8540dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 18/32] fix: headers of replayed requests responses are looked
 up without regard to case

---
 booktest/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 40306e4..f8920b0 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -143,7 +143,7 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = requests.structures.CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
         response._content = response_json["content"].encode()
-- 
2.43.0


From 9641dfd41070af6db61c3925a09e645dbedf243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 19/32] fix: pass the options of a captured request on to the
 real adapter

---
 booktest/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index f8920b0..12c96f3 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -218,7 +218,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            rv = adapters.HTTPAdapter().send(request, **kwargs)
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From c3dee8370d09cb365731db4d3b1dfcce5ade56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 20/32] fix: give a session its own get_adapter back

Sessions overriding get_adapter were left with the one of requests.Session.
---
 booktest/requests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 12c96f3..319b969 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -334,13 +334,14 @@ class SnapshotRequests:
 
         def _fake_send(session, request, **kwargs):
             with threading_rlock(timeout=10):
+                last_get_adapter = session.get_adapter
                 _set_method(session, "get_adapter", _fake_get_adapter)
 
                 try:
                     return _original_send(session, request, **kwargs)
                 finally:
                     # restore get_adapter
-                    _set_method(session, "get_adapter", self._last_get_adapter)
+                    _set_method(session, "get_adapter", last_get_adapter)
 
             if isinstance(self._mock_target, type):
                 return self._last_send(session, request, **kwargs)
-- 
2.43.0


From ba5466f35b21fa2ff0da56e56d63e19ca1430ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 21/32] fix: a last line without newline is written and judged

---
 booktest/testcaserun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 2fb4242..e3392c2 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -222,6 +222,10 @@ class TestCaseRun:
 s
         :return:
         """
+        # finish the last line, if it was left without newline
+        if self.out_line or self.line_error is not None or self.line_diff is not None:
+            self.feed_token("\n", check=self.last_checked)
+
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
-- 
2.43.0


From 7d81d871f863f3fb420c0a9fdd5002cf8db138a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 22/32] fix: a result that cannot be stored fails the case
 instead of the run

---
 booktest/testrun.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 5edfcaf..1fd5577 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -103,7 +103,12 @@ class TestRun:
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
             # if the test case return a value, store it in a cache
-            self.save_test_result(case_path, rv)
+            try:
+                self.save_test_result(case_path, rv)
+            except Exception as e:
+                self.print(f"{case_path} result could not be stored: {e}")
+                self.save_test_result(case_path, None)
+                result = TestResult.FAIL
 
         return result, interaction, t.took_ms
 
-- 
2.43.0


From 6f6f367d96dae4e63e144797042a08ae6d6b9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 23/32] fix: the order of detected tests does not depend on the
 file system

---
 booktest/detection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..33bc68c 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -101,7 +101,8 @@ def detect_setup(path):
     setup = None
     if os.path.exists(path):
         for root, dirs, files in os.walk(path):
-            for f in files:
+            dirs.sort()
+            for f in sorted(files):
                 if f == BOOKTEST_SETUP_FILENAME:
                     setup = parse_booktest_setup(root, f)
 
@@ -112,7 +113,8 @@ def detect_tests(path):
     tests = []
     if os.path.exists(path):
         for root, dirs, files in os.walk(path):
-            for f in files:
+            dirs.sort()
+            for f in sorted(files):
                 if f.endswith("_test.py") or f.endswith("_book.py") or f.endswith("_suite.py") or \
                    (f.startswith("test_") and f.endswith(".py")):
                     tests.extend(parse_test_file(root, f))
-- 
2.43.0


From cb6fefe5b0d9f4412a62eab83d549111fd968498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 24/32] fix: give mocked functions back also when reporting or
 starting the mock fails

---
 booktest/functions.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..272df74 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -161,16 +161,18 @@ class SnapshotFunctions:
                     snapshots.append(
                         FunctionCallSnapshot.from_json_object(json.load(f)))
 
-        snapshotters = []
-
-        for func in self.snapshot_funcs:
-            snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
-            snapshotters.append(snapshotter)
-
         self.snapshots = snapshots
         self.calls = []
-        self.snapshotters = snapshotters
+        self.snapshotters = []
+
+        try:
+            for func in self.snapshot_funcs:
+                snapshotter = FunctionSnapshotter(self, func)
+                set_function(func, snapshotter)
+                self.snapshotters.append(snapshotter)
+        except BaseException:
+            self.stop()
+            raise
 
     def stop(self):
         for snapshotter in self.snapshotters:
@@ -200,8 +202,10 @@ class SnapshotFunctions:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.t_snapshots()
-        self.stop()
+        try:
+            self.t_snapshots()
+        finally:
+            self.stop()
 
 
 def snapshot_functions(*snapshot_funcs):
@@ -238,13 +242,15 @@ class MockFunctions:
         if self._original_funcs is not None:
             raise RuntimeError('FunctionSnapshots has already been started')
 
-        original_funcs = []
-
-        for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
+        self._original_funcs = []
 
-        self._original_funcs = original_funcs
+        try:
+            for func, mock in self.mock_funcs.items():
+                set_function(func, mock)
+                self._original_funcs.append(func)
+        except BaseException:
+            self.stop()
+            raise
 
     def stop(self):
         for func in self._original_funcs:
-- 
2.43.0


From fa32b9b8fcebc63fefc354b5838ca82996b07f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 25/32] fix: mock_missing_env restores variables also when it
 does not mock

Follow-up: the case itself may change a named variable while snapshots are captured.
---
 booktest/env.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index fb80e72..3f73a88 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -114,14 +114,11 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        if not self._do_mock:
-            return
-
         for name, value in self.env.items():
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
 
-            if old_value is None:
+            if self._do_mock and old_value is None:
                 if value is None:
                     os.environ.pop(name, None)
                 else:
-- 
2.43.0


From d72b7e60bd0d05aa9f5e797010a5cc8a1dfbbfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 26/32] fix: give standard error and logging back when a case
 is interrupted

---
 booktest/testrun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 1fd5577..373100f 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -99,6 +99,10 @@ class TestRun:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
+        except BaseException:
+            # the run is interrupted: give back standard error and logging
+            t.close()
+            raise
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-- 
2.43.0


From 9124d0c15bf4c69fd50b87d9921403390fb60a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:48 +0000
Subject: [PATCH 27/32] fix: a case ending in a cancelled await fails alone
 instead of ending or hanging the run

---
 booktest/runs.py    |  3 ++-
 booktest/testrun.py | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 46a2c85..551204c 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,3 +1,4 @@
+import asyncio
 import traceback
 import multiprocessing
 import os
@@ -91,7 +92,7 @@ class RunBatch:
 
             with self.setup.setup_teardown():
                 rv = test_result_to_exit_code(run.run())
-        except (Exception, SystemExit) as e:
+        except (Exception, SystemExit, asyncio.CancelledError) as e:
             print(f"{case} failed with {e}")
             traceback.print_exc()
         finally:
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 373100f..b6701c8 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -31,6 +31,15 @@ def match_method(matcher, method):
     return matcher_func == method_func and (matcher_self == method_self or matcher_self is None)
 
 
+def is_run_cancelled():
+    """
+    Tells, whether the run itself is being cancelled, instead of
+    something that the test case was awaiting
+    """
+    cancelling = getattr(asyncio.current_task(), "cancelling", None)
+    return cancelling is None or cancelling() > 0
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -95,7 +104,10 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
-        except (Exception, SystemExit) as e:
+        except (Exception, SystemExit, asyncio.CancelledError) as e:
+            if isinstance(e, asyncio.CancelledError) and is_run_cancelled():
+                t.close()
+                raise
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From 628f9d872313e233c5a03c3305f0c3b54eb90eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:17 +0000
Subject: [PATCH 28/32] fix: give a session a plain get_adapter function back
 unbound

A session with a get_adapter function of its own got it back as a bound
method, which fails on the session's next request.
---
 booktest/requests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 319b969..3f580cc 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -340,8 +340,8 @@ class SnapshotRequests:
                 try:
                     return _original_send(session, request, **kwargs)
                 finally:
-                    # restore get_adapter
-                    _set_method(session, "get_adapter", last_get_adapter)
+                    # restore get_adapter exactly as it was, it may be a plain function
+                    setattr(session, "get_adapter", last_get_adapter)
 
             if isinstance(self._mock_target, type):
                 return self._last_send(session, request, **kwargs)
-- 
2.43.0


From afaf361bbe0a2c56e8f191857a70936a892c90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:46 +0000
Subject: [PATCH 29/32] fix: compare a tset written after the end of the
 snapshot

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index e3392c2..eb38b65 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -772,7 +772,7 @@ s
         """
         compare = None
 
-        if self.exp_line is not None:
+        if self.exp_file_exists:
             begin = self.exp_line_number
             compare = set()
             while (self.exp_line is not None
-- 
2.43.0


From f0bf3ca1a2ad1846351bf3592e67a50e2c521d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:24 +0000
Subject: [PATCH 30/32] fix: a replayed response knows its url and request,
 relative redirects can be replayed

---
 booktest/requests.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 3f580cc..97caf5f 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -220,6 +220,10 @@ class SnapshotAdapter(adapters.BaseAdapter):
         if rv is None:
             rv = adapters.HTTPAdapter().send(request, **kwargs)
             self.requests.append(RequestSnapshot(key, rv))
+        else:
+            # as the real adapter does, e.g. relative redirects are resolved against the url
+            rv.url = request.url
+            rv.request = request
 
         return rv
 
-- 
2.43.0


From 590e01ad95b86a05da1292f06c7113fd2f4b2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:57 +0000
Subject: [PATCH 31/32] fix: streamed responses can be captured and replayed

---
 booktest/requests.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 97caf5f..13c0470 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -147,6 +147,8 @@ class RequestSnapshot:
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
         response._content = response_json["content"].encode()
+        # the body is there, nothing is left to be streamed
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -219,6 +221,8 @@ class SnapshotAdapter(adapters.BaseAdapter):
 
         if rv is None:
             rv = adapters.HTTPAdapter().send(request, **kwargs)
+            # read the body before it can be streamed, it's needed for the snapshot
+            rv.content
             self.requests.append(RequestSnapshot(key, rv))
         else:
             # as the real adapter does, e.g. relative redirects are resolved against the url
-- 
2.43.0


From 69cd2f1f0eb4cbd306ce25f82e508755d096b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:28 +0000
Subject: [PATCH 32/32] fix: streamed httpx responses can be captured

---
 booktest/httpx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 2aed638..e33f27f 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -251,6 +251,8 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = self._real_handle_request(transport, request)
+            # read the body before it can be streamed, it's needed for the snapshot
+            rv.read()
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
@@ -260,6 +262,7 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = await self._real_handle_async_request(transport, request)
+            await rv.aread()
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0

