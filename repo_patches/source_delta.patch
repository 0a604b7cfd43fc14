From 14f5832422e6489de381c56ad47f08d5407d1d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 01/16] fix: start a waiting job only once

---
 crates/astro-run/src/workflow/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..039a794 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -10,7 +10,7 @@ use crate::{
   WorkflowStateEvent,
 };
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use tokio::sync::mpsc::{channel, Sender};
 
 // Job key, JobRunResult
@@ -59,6 +59,8 @@ impl Workflow {
 
     let mut waiting_jobs: Vec<(Id, Job)> = vec![];
     let mut job_results: HashMap<String, JobRunResult> = HashMap::new();
+    // Waiting jobs that have already been started
+    let mut started_jobs: HashSet<Id> = HashSet::new();
 
     for (key, job) in self.jobs.iter() {
       let key = key.clone();
@@ -116,7 +118,7 @@ impl Workflow {
             }
           }
 
-          if all_finished {
+          if all_finished && started_jobs.insert(job_id.clone()) {
             self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
           }
         }
-- 
2.43.0


From 19047931c55dfd9ba6b05b6eb5a58645c361ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 02/16] fix: decide and store the first stream result under one
 lock

---
 crates/astro-run/src/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..b212f6a 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,13 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From b75896a2df30c8e0b2a2665a1083b075d4e23f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 03/16] fix: measure the step timeout from the start of the
 step, not from its last log

---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..70d910e 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // The step times out `timeout` after it started, no matter how many logs it emits
+    let deadline = time::sleep(timeout);
+    tokio::pin!(deadline);
+    let mut timed_out = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut deadline, if !timed_out => {
+          timed_out = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From 4fcf82a438a45789147e2f6a8dba07041ab961d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 04/16] fix: reject workflows whose jobs depend on each other
 in a cycle

---
 crates/astro-run/src/user_config.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..c2e1131 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -1,6 +1,6 @@
 use crate::{Condition, EnvironmentVariables, Error, Id, Result};
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
 pub struct ContainerOptions {
@@ -113,6 +113,27 @@ impl UserWorkflow {
       ));
     }
 
+    // A job in a dependency cycle would never become ready to run
+    let mut resolved = HashSet::new();
+
+    while resolved.len() < workflow.jobs.len() {
+      let resolved_count = resolved.len();
+
+      for (job_name, job) in &workflow.jobs {
+        let mut depends_on = job.depends_on.iter().flatten();
+
+        if depends_on.all(|depend_job_key| resolved.contains(depend_job_key)) {
+          resolved.insert(job_name);
+        }
+      }
+
+      if resolved.len() == resolved_count {
+        return Err(Error::workflow_config_error(
+          "Jobs cannot depend on each other in a cycle",
+        ));
+      }
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From ae1ace6f722d16b2f51bcc59edf0fe42da3ceb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 05/16] fix: the job's last runner is reused only for steps it
 can run

---
 crates/scheduler/src/default.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..9326f7b 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,11 +62,12 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
-          return true;
+          return r.support_docker;
         }
 
         false
-- 
2.43.0


From f7c8909568f3f280368533ecf7f5058be6192501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 06/16] fix: tell the remote runner's scheduler which runs
 start and complete

---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..1f52c25 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -72,6 +72,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -82,6 +84,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -92,6 +96,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +130,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -132,6 +142,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From fbaf0a03023604050524866f54459947973dce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 07/16] fix: keep forwarding events to remote runners after
 falling behind

---
 crates/remote-runner/src/client.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 1f52c25..9f72293 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -203,7 +203,15 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    loop {
+      let event = match receiver.recv().await {
+        Ok(event) => event,
+        Err(broadcast::error::RecvError::Lagged(count)) => {
+          log::error!("{} events were not sent to the runners", count);
+          continue;
+        }
+        Err(broadcast::error::RecvError::Closed) => break,
+      };
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
-- 
2.43.0


From eb0928948cdaee6f94c96082b12f80b490ce75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 08/16] fix: read both outputs of a command until they end

---
 crates/runner/src/command.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..e3d8728 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -1,6 +1,7 @@
 use astro_run::{Error, Result, RunResult, StreamSender};
 use serde::{Deserialize, Serialize};
 use std::{
+  io::ErrorKind,
   path::{Path, PathBuf},
   process::Stdio,
 };
@@ -79,33 +80,37 @@ impl Command {
     let mut lines = out.lines();
     let mut errors = err.lines();
 
-    loop {
+    let mut out_open = true;
+    let mut err_open = true;
+
+    // One stream may end, or carry a line that is not UTF-8, long before the other one ends
+    while out_open || err_open {
       tokio::select! {
-        line = lines.next_line() => {
+        line = lines.next_line(), if out_open => {
           match line {
             Ok(Some(line)) => {
               sender.log(line);
             }
             Ok(None) => {
-                break;
+              out_open = false;
             }
             Err(err) => {
+              out_open = err.kind() == ErrorKind::InvalidData;
               sender.error(err.to_string());
-              break;
             }
           }
         }
-        error = errors.next_line() => {
+        error = errors.next_line(), if err_open => {
           match error {
             Ok(Some(error)) => {
               sender.error(error);
             }
             Ok(None) => {
-              break;
+              err_open = false;
             }
             Err(err) => {
+              err_open = err.kind() == ErrorKind::InvalidData;
               sender.error(err.to_string());
-              break;
             }
           }
         }
-- 
2.43.0


From 59972a5358824219e25ac4b783c968b1880cb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 09/16] fix: a runner's step is over when its command is, not
 only when it is signalled

---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 10 +++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..73dcd60 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..6a73c14 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
@@ -51,9 +53,7 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
+      // The job's other steps share the working directory, it is removed with the workflow's
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From 44d73129cd9bd00d493af04f857b5cde1cc5dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 10/16] fix: kill the command of a step that is cancelled or
 timed out

---
 crates/runner/src/command.rs        | 1 +
 crates/runner/src/executors/host.rs | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index e3d8728..82bc696 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -62,6 +62,7 @@ impl Command {
     let mut child = command
       .stdout(Stdio::piped())
       .stderr(Stdio::piped())
+      .kill_on_drop(true)
       .spawn()
       .map_err(|err| {
         Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 6a73c14..f566f33 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -43,7 +43,6 @@ impl Executor for HostExecutor {
           }
         }
         signal = ctx.signal.recv() => {
-          // TODO: cancel the command
           log::trace!("Step run received signal: {:?}", signal);
           if let astro_run::Signal::Cancel = signal {
             sender.cancelled();
-- 
2.43.0


From a79bbabe210266e2e4d969e361db6b3c817c41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 11/16] fix: a step signalled before it starts ends as
 cancelled or timed out

---
 crates/runner/src/executors/docker.rs | 5 +++++
 crates/runner/src/executors/host.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 73dcd60..7c543fc 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -75,6 +75,11 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index f566f33..fef41aa 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -56,6 +56,11 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From ea8db1d2621d588289be3bb4fa3212322d59c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 12/16] fix: forget the event of a completed workflow

---
 crates/runner/src/astro_runner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..9072f82 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -98,7 +98,7 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
     let mut directory = self.working_directory.clone();
 
-- 
2.43.0


From 1b9eb46fc7261e1504f27df637fdd196b174ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 13/16] fix: mount volumes that are given with options

---
 crates/runner/src/executors/docker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 7c543fc..0441647 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -117,7 +117,7 @@ impl DockerExecutor {
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
+        if let Some((host_path, container_path)) = volume.split_once(':') {
           docker = docker.volume(host_path, container_path);
         }
       }
-- 
2.43.0


From 1d4e7dfda26812e771297cfcbca9e17b2effee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 14/16] fix: finish writing the script of a step before it is
 run

---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..b42f3a5 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // The last write may still be under way
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From ced39df0b3dcf4b96243ed9b8265ca2ca019ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 15/16] fix: a step listens to its own job's signal even if a
 hook replaced its id

---
 crates/astro-run/src/execution_context/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 70d910e..dcaf796 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -23,6 +23,8 @@ pub struct ExecutionContext {
 
 impl ExecutionContext {
   pub async fn run(&self, step: Step) -> StepRunResult {
+    // Hooks may replace the step and its id, but it stays a step of the same job
+    let job_id = step.id.job_id();
     let step = self.call_on_before_run_step(step).await;
 
     let step_id = step.id.clone();
@@ -49,7 +51,7 @@ impl ExecutionContext {
     // Job signal
     let job_signal = self
       .signal_manager
-      .get_signal(&step.id.job_id())
+      .get_signal(&job_id)
       .expect("Missing job signal");
 
     // Step signal
-- 
2.43.0


From 71f77175931e8d35a37b864921d908d45124556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:15 +0000
Subject: [PATCH 16/16] fix: a runner is picked and its step counted under one
 lock

---
 crates/scheduler/src/default.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 9326f7b..aab51f0 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -55,7 +55,10 @@ impl Scheduler for DefaultScheduler {
 
     log::trace!("Is runs on host: {}", is_runs_on_host);
 
-    let last_used_id = self.state.lock().job_runners.get(&job_id).cloned();
+    // A runner is picked and its step counted under one lock, steps scheduled at once see each other
+    let mut state = self.state.lock();
+
+    let last_used_id = state.job_runners.get(&job_id).cloned();
 
     if let Some(last_used_id) = last_used_id {
       runner = runners.iter().find(|r| {
@@ -77,12 +80,11 @@ impl Scheduler for DefaultScheduler {
     }
 
     if runner.is_none() {
-      runner = self.pick_runner(runners, container_name);
+      runner = self.pick_runner(runners, container_name, &state.runs_count);
       log::trace!("Picked runner: {:?}", runner);
     }
 
     if let Some(runner) = &runner {
-      let mut state = self.state.lock();
       state
         .step_runners
         .insert(ctx.command.id.clone(), runner.id.clone());
@@ -134,6 +136,7 @@ impl DefaultScheduler {
     &'b self,
     runners: &'a [RunnerMetadata],
     container: Option<String>,
+    runs_count: &HashMap<String, i32>,
   ) -> Option<&'a RunnerMetadata> {
     let is_runs_on_host = container
       .clone()
@@ -143,15 +146,15 @@ impl DefaultScheduler {
     if is_runs_on_host {
       self.pick_host_runner(runners, container.unwrap())
     } else {
-      self.pick_docker_runner(runners)
+      self.pick_docker_runner(runners, runs_count)
     }
   }
 
   fn pick_docker_runner<'a, 'b: 'a>(
     &'b self,
     runners: &'a [RunnerMetadata],
+    runs_count: &HashMap<String, i32>,
   ) -> Option<&'a RunnerMetadata> {
-    let runs_count = self.state.lock().runs_count.clone();
     let min_runs = runners
       .iter()
       .filter(|r| r.support_docker)
-- 
2.43.0

