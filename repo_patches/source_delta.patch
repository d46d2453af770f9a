From fdf7557a7786b1dd9a841f05b2248cd4fc3f3b50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 01/18] fix: start a waiting job only once

A job whose dependencies had finished stayed in the waiting list until its
own result arrived, so every other job result that came in meanwhile started
it again.
---
 crates/astro-run/src/workflow/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..ee973cb 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -96,7 +96,6 @@ impl Workflow {
         workflow_state = WorkflowState::Cancelled;
       }
 
-      waiting_jobs.retain(|(k, _)| k != &key);
       job_results.insert(key, job_result);
 
       if job_results.len() == total_jobs {
@@ -106,6 +105,7 @@ impl Workflow {
         break;
       }
 
+      let mut started_jobs: Vec<Id> = vec![];
       for (job_id, job) in waiting_jobs.iter() {
         if !job.depends_on.is_empty() {
           let mut all_finished = true;
@@ -118,9 +118,13 @@ impl Workflow {
 
           if all_finished {
             self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
+            started_jobs.push(job_id.clone());
           }
         }
       }
+
+      // A started job no longer waits, otherwise it would be started again by the next result
+      waiting_jobs.retain(|(k, _)| !started_jobs.contains(k));
     }
 
     let completed_at = chrono::Utc::now();
-- 
2.43.0


From bc92fc02bca2f35bd7dd3fe7b69a13cbb7f6c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 02/18] fix: let the step timeout bound the whole step

The timeout timer was created anew for every iteration of the event loop, so
each log line of a step postponed its timeout.
---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..80e310b 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // The timeout is a budget for the whole step, so the timer must outlive the iterations
+    let timer = time::sleep(timeout);
+    tokio::pin!(timer);
+    let mut is_timer_done = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut timer, if !is_timer_done => {
+          is_timer_done = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From a8f04cf218220d17a31524141d425cf9570763e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 03/18] fix: deliver a job cancellation to the remaining steps

The job signal can be received once, by the step that is running when the job
is cancelled. When that step ended without being cancelled, the following
steps ran on as if the cancellation had never been accepted.
---
 crates/astro-run/src/execution_context/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 80e310b..2d53862 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -55,6 +55,11 @@ impl ExecutionContext {
     // Step signal
     let signal = AstroRunSignal::new();
 
+    // The job signal is received only once, but a cancellation concerns every remaining step
+    if job_signal.is_cancelled() {
+      signal.cancel().ok();
+    }
+
     let mut receiver = match self
       .runner
       .run(Context {
-- 
2.43.0


From 33f3f82a8351d075b6679dcb3ce0ad6bac22833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 04/18] fix: match pull request conditions against all changed
 files

---
 .../execution_context/condition_matcher.rs    | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..8eca025 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -111,20 +111,37 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+    // The files are listed in pages
+    let mut files: Vec<String> = vec![];
+    for page in 1.. {
+      let query = octocrate::pulls::list_files::Query::builder()
+        .per_page(100)
+        .page(page)
+        .build();
+
+      let pull_request_files = github_api
+        .pulls
+        .list_files(
+          repo_owner,
+          repo_name,
+          pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
+        )
+        .query(&query)
+        .send()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      let is_last_page = pull_request_files.len() < 100;
+      files.extend(pull_request_files.into_iter().map(|f| f.filename));
+
+      if is_last_page {
+        break;
+      }
+    }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+    Ok(files)
   }
 
   async fn get_github_api_by_repo(
-- 
2.43.0


From 138df680f37b5cb6ae59dd1820e56c71e59bb443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 05/18] fix: keep the first result of a stream when several are
 set at once

---
 crates/astro-run/src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..d0d1081 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,12 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From c1cc1a9602662d1c54c1fc532bb20b96c8803668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 06/18] fix: reject workflows whose jobs depend on each other
 in a cycle

---
 crates/astro-run/src/user_config.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..17d2527 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -1,6 +1,6 @@
 use crate::{Condition, EnvironmentVariables, Error, Id, Result};
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
 pub struct ContainerOptions {
@@ -113,6 +113,29 @@ impl UserWorkflow {
       ));
     }
 
+    Self::validate_no_dependency_cycle(workflow)
+  }
+
+  fn validate_no_dependency_cycle(workflow: &UserWorkflow) -> Result<()> {
+    let mut runnable_jobs: HashSet<&Id> = HashSet::new();
+
+    while runnable_jobs.len() < workflow.jobs.len() {
+      let count = runnable_jobs.len();
+
+      for (job_name, job) in &workflow.jobs {
+        let mut depends_on = job.depends_on.iter().flatten();
+        if depends_on.all(|depend_job_key| runnable_jobs.contains(depend_job_key)) {
+          runnable_jobs.insert(job_name);
+        }
+      }
+
+      if runnable_jobs.len() == count {
+        return Err(Error::workflow_config_error(
+          "Jobs cannot depend on each other in a cycle",
+        ));
+      }
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From d03350f9e2e0f869ac3f3f7ea7b6f43d2cb6140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 07/18] fix: never schedule host steps on a runner without host
 support

---
 crates/scheduler/src/default.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..d3b4797 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,8 +62,9 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
           return true;
-- 
2.43.0


From f6cebfc423ca1e22ae789f78fdd2eea48a3f85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 08/18] fix: tell the scheduler of the remote client what runs
 and completes

---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..1f52c25 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -72,6 +72,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -82,6 +84,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -92,6 +96,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +130,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -132,6 +142,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From 04913716ceeb9d7e1b958b855c4675e6b59f6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 09/18] fix: never drop events queued for remote runners

---
 crates/remote-runner/src/client.rs | 36 +++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 1f52c25..33e8d39 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -6,7 +6,7 @@ use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
 use std::{collections::HashMap, sync::Arc};
-use tokio::sync::broadcast;
+use tokio::sync::mpsc;
 use tokio_stream::StreamExt;
 
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
@@ -18,11 +18,37 @@ struct Client {
   client: GRPCClient,
 }
 
+/// Queues every event for each subscriber, however slow the runners are to take them.
+#[derive(Clone, Default)]
+struct EventSender {
+  subscribers: Arc<Mutex<Vec<mpsc::UnboundedSender<ProtocolEvent>>>>,
+}
+
+impl EventSender {
+  fn subscribe(&self) -> mpsc::UnboundedReceiver<ProtocolEvent> {
+    let (sender, receiver) = mpsc::unbounded_channel();
+    self.subscribers.lock().push(sender);
+
+    receiver
+  }
+
+  fn send(&self, event: ProtocolEvent) -> Result<()> {
+    let mut subscribers = self.subscribers.lock();
+    subscribers.retain(|sender| sender.send(event.clone()).is_ok());
+
+    if subscribers.is_empty() {
+      return Err(Error::error("No subscribers"));
+    }
+
+    Ok(())
+  }
+}
+
 #[derive(Clone)]
 pub struct AstroRunRemoteRunnerClient {
   clients: Arc<Mutex<HashMap<String, Client>>>,
   scheduler: Arc<Box<dyn Scheduler>>,
-  event_sender: broadcast::Sender<ProtocolEvent>,
+  event_sender: EventSender,
 }
 
 #[astro_run::async_trait]
@@ -203,7 +229,7 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    while let Some(event) = receiver.recv().await {
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
@@ -336,11 +362,9 @@ impl AstroRunRemoteRunnerClientBuilder {
       .scheduler
       .unwrap_or_else(|| Box::new(astro_run_scheduler::DefaultScheduler::new()));
 
-    let (event_sender, _) = broadcast::channel(30);
-
     Ok(AstroRunRemoteRunnerClient {
       scheduler: Arc::new(scheduler),
-      event_sender,
+      event_sender: EventSender::default(),
       clients: Arc::new(Mutex::new(HashMap::new())),
     })
   }
-- 
2.43.0


From f8faa2132fed71522dd7127d49276999f578baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 10/18] fix: log both output streams of a command to their end

---
 crates/runner/src/command.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..43cee31 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -79,33 +79,37 @@ impl Command {
     let mut lines = out.lines();
     let mut errors = err.lines();
 
-    loop {
+    let mut lines_ended = false;
+    let mut errors_ended = false;
+
+    // One of the streams may end before the other
+    while !lines_ended || !errors_ended {
       tokio::select! {
-        line = lines.next_line() => {
+        line = lines.next_line(), if !lines_ended => {
           match line {
             Ok(Some(line)) => {
               sender.log(line);
             }
             Ok(None) => {
-                break;
+              lines_ended = true;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              lines_ended = true;
             }
           }
         }
-        error = errors.next_line() => {
+        error = errors.next_line(), if !errors_ended => {
           match error {
             Ok(Some(error)) => {
               sender.error(error);
             }
             Ok(None) => {
-              break;
+              errors_ended = true;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              errors_ended = true;
             }
           }
         }
-- 
2.43.0


From 473ff209852b2bd75de034680b71de3fac28d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 11/18] fix: keep logging after a command printed invalid UTF-8

---
 crates/runner/src/command.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index 43cee31..d7701c9 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -76,8 +76,9 @@ impl Command {
     let out = BufReader::new(out);
     let err = BufReader::new(err);
 
-    let mut lines = out.lines();
-    let mut errors = err.lines();
+    // The output of a command is not necessarily valid UTF-8
+    let mut lines = out.split(b'\n');
+    let mut errors = err.split(b'\n');
 
     let mut lines_ended = false;
     let mut errors_ended = false;
@@ -85,10 +86,10 @@ impl Command {
     // One of the streams may end before the other
     while !lines_ended || !errors_ended {
       tokio::select! {
-        line = lines.next_line(), if !lines_ended => {
+        line = lines.next_segment(), if !lines_ended => {
           match line {
             Ok(Some(line)) => {
-              sender.log(line);
+              sender.log(Self::to_text(line));
             }
             Ok(None) => {
               lines_ended = true;
@@ -99,10 +100,10 @@ impl Command {
             }
           }
         }
-        error = errors.next_line(), if !errors_ended => {
+        error = errors.next_segment(), if !errors_ended => {
           match error {
             Ok(Some(error)) => {
-              sender.error(error);
+              sender.error(Self::to_text(error));
             }
             Ok(None) => {
               errors_ended = true;
@@ -136,6 +137,14 @@ impl Command {
     Ok(())
   }
 
+  fn to_text(mut line: Vec<u8>) -> String {
+    if line.last() == Some(&b'\r') {
+      line.pop();
+    }
+
+    String::from_utf8_lossy(&line).into_owned()
+  }
+
   fn build_command(&self) -> Cmd {
     let mut command;
 
-- 
2.43.0


From 6cabaa3c2d7a8feb0f4b074fd6a9b22dc69e2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 12/18] fix: finish a step when its command has ended

Until a signal arrived, which is never the case for a step that ran to its
end, its plugins were not called and its directory was not removed.
---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..d2cac10 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        result = command.run(sender.clone()) => {
+          if let Err(err) = result {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..25c17cd 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        result = command.run(sender.clone()) => {
+          if let Err(err) = result {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
@@ -51,9 +53,8 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
+      // The data directory is shared by the steps of the job,
+      // it is removed when the workflow completes
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From e8bf10e62a8eab642f0d589b7fbff9a6718f8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 13/18] fix: report a step that was signalled before it started
 as such

---
 crates/runner/src/executors/docker.rs | 6 ++++++
 crates/runner/src/executors/host.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index d2cac10..f50bff6 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -75,6 +75,12 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 25c17cd..0532412 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -58,6 +58,12 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From 37dd6b73a4db3a366e8f557728bb034a62033f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 14/18] fix: forget the event of a completed workflow

---
 crates/runner/src/astro_runner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..9072f82 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -98,7 +98,7 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
     let mut directory = self.working_directory.clone();
 
-- 
2.43.0


From 295c96405837c39e4471f0da38774c5fd2e03c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 15/18] fix: complete a step's entrypoint before docker runs it

---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..c404b7e 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // Writes are not complete until they are flushed
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From 89b64bc16dcc79a5796cf02e074a5226390d0b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 16/18] fix: keep volumes that are mounted with options

---
 crates/runner/src/executors/docker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index f50bff6..f93b757 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -118,7 +118,8 @@ impl DockerExecutor {
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
+        // The container path may be followed by options, such as ro
+        if let Some((host_path, container_path)) = volume.split_once(':') {
           docker = docker.volume(host_path, container_path);
         }
       }
-- 
2.43.0


From 67b654d0f3f91b72e79d5f9ec1749bcede176334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 17/18] fix: pass environment variables to containers unchanged

Quotes, backslashes, dollar signs and backticks in a value were
interpreted by the shell that starts docker.
---
 crates/runner/src/docker.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..4397607 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -64,6 +64,26 @@ impl Docker {
     self
   }
 
+  /// Escape what is special to the shell within double quotes
+  #[cfg(not(target_os = "windows"))]
+  fn escape(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+
+    for c in value.chars() {
+      if matches!(c, '\\' | '"' | '$' | '`') {
+        escaped.push('\\');
+      }
+      escaped.push(c);
+    }
+
+    escaped
+  }
+
+  #[cfg(target_os = "windows")]
+  fn escape(value: &str) -> String {
+    value.to_string()
+  }
+
   fn generate_docker_command(&self) -> String {
     let mut docker_command: Vec<String> = ["docker", "run", "--tty"]
       .iter()
@@ -86,7 +106,7 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}=\"{}\"", key, Self::escape(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
-- 
2.43.0


From 112a2a236be60752b74d395cd0076a51936ac723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:04 +0000
Subject: [PATCH 18/18] fix: keep the signal of a step that runs again under
 the same id

---
 crates/remote-runner/src/runner_server.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index cfc4125..f6e928c 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -41,13 +41,21 @@ impl AstroRunRemoteRunnerServer {
 
   fn run(
     runner: Arc<Box<dyn Runner>>,
+    signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
     sender: mpsc::Sender<Result<RunResponse, tonic::Status>>,
     ctx: astro_run::Context,
   ) {
     let id = ctx.id.clone();
 
     tokio::spawn(async move {
-      let mut stream = runner.run(ctx).await?;
+      let mut stream = match runner.run(ctx).await {
+        Ok(stream) => stream,
+        Err(err) => {
+          signals.lock().remove(&id);
+
+          return Err(err);
+        }
+      };
 
       while let Some(log) = stream.next().await {
         if let Err(err) = sender.send(Ok(RunResponse::log(id.clone(), log))).await {
@@ -55,6 +63,10 @@ impl AstroRunRemoteRunnerServer {
         }
       }
 
+      // Remove the signal once the step has ended. Its completion may only be announced
+      // when the step already runs again, and must not take the signal of that run.
+      signals.lock().remove(&id);
+
       let result = stream.result().ok_or(Error::internal_runtime_error(
         "Cannot get result from runner".to_string(),
       ))?;
@@ -92,7 +104,7 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
 
     let runner = self.runner.clone();
 
-    Self::run(runner, tx, context);
+    Self::run(runner, self.signals.clone(), tx, context);
 
     Ok(tonic::Response::new(ReceiverStream::new(rx)))
   }
@@ -121,12 +133,6 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
         }
       }
       ProtocolEvent::StepCompleted(result) => {
-        // Remove signal once step is completed
-        let step_id = &result.id;
-
-        self.signals.lock().remove(step_id);
-
-        // Dispatch event to plugins and runner
         self.plugin_driver.on_step_completed(result.clone()).await;
         if let Err(err) = self.runner.on_step_completed(result).await {
           log::error!("Failed to handle step completed event: {}", err);
-- 
2.43.0

