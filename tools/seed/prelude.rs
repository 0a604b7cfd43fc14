#![allow(dead_code, unused_imports)]
use astro_run::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Script = Arc<dyn Fn(Context, StreamSender) + Send + Sync>;

/// Runs `script(ctx, stream)` for every step in its own task; records hooks.
#[derive(Clone)]
struct Scripted {
  script: Script,
  seen: Arc<Mutex<Vec<String>>>,
}

impl Scripted {
  fn new(f: impl Fn(Context, StreamSender) + Send + Sync + 'static) -> Self {
    Scripted { script: Arc::new(f), seen: Arc::new(Mutex::new(vec![])) }
  }
  fn note(&self, s: String) {
    self.seen.lock().unwrap().push(s);
  }
  fn seen(&self) -> Vec<String> {
    self.seen.lock().unwrap().clone()
  }
}

#[async_trait]
impl Runner for Scripted {
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.note(format!("run-job {}", e.source.id.job_key()));
    Ok(())
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.note(format!("run-step {}", e.source.id.to_string()));
    Ok(())
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    self.note(format!("state {:?}", e));
    Ok(())
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    self.note(format!("log {}", l.message));
    Ok(())
  }
  async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult {
    self.note(format!("step-completed {} {:?}", r.id.to_string(), r.state));
    Ok(())
  }
  async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult {
    self.note(format!("job-completed {} {:?}", r.id.job_key(), r.state));
    Ok(())
  }
  async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult {
    self.note(format!("workflow-completed {:?}", r.state));
    Ok(())
  }
  async fn run(&self, ctx: Context) -> RunResponse {
    let (tx, rx) = stream();
    let f = self.script.clone();
    self.note(format!("runner {}", ctx.id.to_string()));
    std::thread::spawn(move || f(ctx, tx));
    Ok(rx)
  }
}

async fn run_config(runner: &Scripted, config: &str) -> WorkflowRunResult {
  let astro = AstroRun::builder().runner(runner.clone()).build();
  run_on(&astro, config).await
}

async fn run_on(astro: &AstroRun, config: &str) -> WorkflowRunResult {
  let w = Workflow::builder().id("w").config(config).build(astro).await.unwrap();
  tokio::time::timeout(Duration::from_secs(20), w.run(astro.execution_context().build())).await.expect("the workflow hangs")
}
