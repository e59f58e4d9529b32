From 2ff76159f4fc4ca18a6368cf889cd1784f740fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 01/42] fix: check every command of a pipeline, with its real
 arguments

---
 dsh/src/safety/mod.rs | 65 ++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index c746e05..96164d5 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -1,4 +1,4 @@
-use crate::process::Job;
+use crate::process::{Job, JobProcess};
 use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -117,49 +117,39 @@ impl SafetyGuard {
         // --- Normal Mode Checks ---
 
         // 1. Check for dangerous pipelines (e.g., curl | sh)
-        for (i, job) in jobs.iter().enumerate() {
+        let mut prev_cmd = String::new();
+        for job in jobs.iter() {
             // Check allowlist
-            if allowlist.contains(&job.cmd) {
-                continue;
-            }
+            let allowlisted = allowlist.contains(&job.cmd);
 
-            let cmd_token = job.cmd.split_whitespace().next().unwrap_or("");
-            let cmd_name = Self::get_command_name(cmd_token);
+            for (cmd, args) in Self::job_commands(job) {
+                let cmd_name = Self::get_command_name(&cmd);
+                let prev_cmd = std::mem::replace(&mut prev_cmd, cmd_name.clone());
 
-            // Check illegal pipe destinations
-            if i > 0 {
-                let prev_job = &jobs[i - 1];
-                let prev_token = prev_job.cmd.split_whitespace().next().unwrap_or("");
-                let prev_cmd = Self::get_command_name(prev_token);
+                if allowlisted {
+                    continue;
+                }
 
+                // Check illegal pipe destinations
                 if Self::is_network_tool(&prev_cmd) && Self::is_execution_tool(&cmd_name) {
                     return SafetyResult::Confirm(format!(
                         "Dangerous pipeline detected: '{} | {}'. This looks like a 'curl | sh' pattern. Proceed?",
                         prev_cmd, cmd_name
                     ));
                 }
-            }
-
-            // Check individual command safety
-            // We assume basic args parsing from the job command string is needed or done elsewhere.
-            // Job struct has `process` but it might be complex to extract clean args.
-            // For now, we do a simple split. This is rough but covers most cases.
-            let parts: Vec<String> = job.cmd.split_whitespace().map(|s| s.to_string()).collect();
-            if let Some(cmd) = parts.first() {
-                let args = if parts.len() > 1 { &parts[1..] } else { &[] };
-                let cmd_clean = Self::get_command_name(cmd);
 
+                // Check individual command safety
                 // 1. Check always warn list
-                if self.always_warn_commands.contains(&cmd_clean) {
+                if self.always_warn_commands.contains(&cmd_name) {
                     return SafetyResult::Confirm(format!(
                         "Potentially dangerous system command '{}' detected. Proceed?",
-                        cmd_clean
+                        cmd_name
                     ));
                 }
 
                 // 2. Run specific checker if available
-                if let Some(checker) = self.checkers.get(&cmd_clean)
-                    && let Some(msg) = checker(args)
+                if let Some(checker) = self.checkers.get(&cmd_name)
+                    && let Some(msg) = checker(&args)
                 {
                     return SafetyResult::Confirm(msg);
                 }
@@ -169,6 +159,29 @@ impl SafetyGuard {
         SafetyResult::Allowed
     }
 
+    /// The commands a job runs (one per pipeline stage), each with its arguments.
+    /// A job that has not been parsed into processes is split on whitespace.
+    fn job_commands(job: &Job) -> Vec<(String, Vec<String>)> {
+        let mut commands = Vec::new();
+        let mut stage = job.process.clone();
+        while let Some(process) = stage {
+            let (name, argv) = match process.as_ref() {
+                JobProcess::Builtin(p) => (&p.name, &p.argv),
+                JobProcess::Command(p) => (&p.cmd, &p.argv),
+            };
+            let args = argv.get(1..).unwrap_or_default().to_vec();
+            commands.push((argv.first().unwrap_or(name).clone(), args));
+            stage = process.next();
+        }
+        if commands.is_empty() {
+            let mut parts = job.cmd.split_whitespace().map(|s| s.to_string());
+            if let Some(cmd) = parts.next() {
+                commands.push((cmd, parts.collect()));
+            }
+        }
+        commands
+    }
+
     /// Check a single command (legacy or simpler use cases)
     /// This is now mostly a wrapper or for simple checks.
     pub fn check_command(
-- 
2.43.0


From 873e4f74dc3416a8c5f9fd3fee903ccd3eb3fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 02/42] fix: apply the safety policy to substitutions and
 subshells before running them

---
 dsh/src/shell/eval.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 36a2b53..bf01d5f 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -5,7 +5,7 @@ use crate::shell::{
     parse::{ParseContext, parse_commands},
 };
 use crate::terminal::title;
-use anyhow::{Context as _, Result, anyhow};
+use anyhow::{Context as _, Result, anyhow, bail};
 use crossterm::terminal::{disable_raw_mode, enable_raw_mode};
 use dsh_builtin::execute_chat_message;
 use dsh_types::{Context, ExitStatus};
@@ -519,6 +519,9 @@ pub fn get_jobs(shell: &mut Shell, input: &str) -> Result<Vec<Job>> {
 }
 
 pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) -> Result<()> {
+    // Nested commands run while the line is still being parsed, before the line itself is checked.
+    authorize_subshell(shell, &jobs)?;
+
     for mut job in jobs {
         disable_raw_mode().ok();
         let pid = task::block_in_place(|| {
@@ -534,6 +537,39 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
     Ok(())
 }
 
+/// Apply the safety policy to the jobs of a substitution or subshell.
+fn authorize_subshell(shell: &Shell, jobs: &[Job]) -> Result<()> {
+    use crate::repl::confirmation::{ConfirmationAction, confirm_action};
+    use crate::safety::SafetyResult;
+
+    let verdict = {
+        let environment = shell.environment.read();
+        let safety_level = environment.safety_level.read();
+        let allowlist = environment.execute_allowlist.read();
+        shell
+            .safety_guard
+            .check_jobs(jobs, &safety_level, &allowlist)
+    };
+
+    match verdict {
+        SafetyResult::Allowed => Ok(()),
+        SafetyResult::Denied(reason) => bail!("access denied: {}", reason),
+        SafetyResult::Confirm(reason) => match confirm_action(&reason) {
+            Ok(ConfirmationAction::Yes) => Ok(()),
+            Ok(ConfirmationAction::AlwaysAllow) => {
+                shell
+                    .environment
+                    .read()
+                    .execute_allowlist
+                    .write()
+                    .extend(jobs.iter().map(|j| j.cmd.clone()));
+                Ok(())
+            }
+            Ok(ConfirmationAction::No) | Err(_) => bail!("command execution cancelled"),
+        },
+    }
+}
+
 // SAFETY WARNING:
 // This function calls `fork()` in a potentially multi-threaded environment (Tokio runtime).
 // In the child process (ForkResult::Child), it proceeds to use `job.launch` which is async
-- 
2.43.0


From 1f45d05a8965a3059e99da891316b49e62b69b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 03/42] fix: create the parent directories of an AI edit only
 after the user agreed

---
 dsh-builtin/src/chatgpt/tool/edit.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsh-builtin/src/chatgpt/tool/edit.rs b/dsh-builtin/src/chatgpt/tool/edit.rs
index 45e7669..11a821d 100644
--- a/dsh-builtin/src/chatgpt/tool/edit.rs
+++ b/dsh-builtin/src/chatgpt/tool/edit.rs
@@ -62,13 +62,6 @@ pub(crate) fn run(arguments: &str, proxy: &mut dyn ShellProxy) -> Result<String,
         ));
     }
 
-    if let Some(parent) = normalized_abs_path.parent()
-        && !parent.as_os_str().is_empty()
-    {
-        fs::create_dir_all(parent)
-            .map_err(|err| format!("chat: failed to create parent directories: {err}"))?;
-    }
-
     // Safety Guard: Request confirmation from user
     let confirm_msg = format!("AI wants to write to file: `{}`. \r\nProceed?", path_value);
     if !proxy
@@ -78,6 +71,13 @@ pub(crate) fn run(arguments: &str, proxy: &mut dyn ShellProxy) -> Result<String,
         return Ok("File modification cancelled by user.".to_string());
     }
 
+    if let Some(parent) = normalized_abs_path.parent()
+        && !parent.as_os_str().is_empty()
+    {
+        fs::create_dir_all(parent)
+            .map_err(|err| format!("chat: failed to create parent directories: {err}"))?;
+    }
+
     fs::write(&normalized_abs_path, contents)
         .map_err(|err| format!("chat: failed to write file `{path_value}`: {err}"))?;
 
-- 
2.43.0


From 51a6df721c157a53146a6842ad64de58ecd0bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 04/42] fix: the AI search tool refuses a start path that
 .gitignore excludes

---
 dsh-builtin/src/chatgpt/tool/search.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsh-builtin/src/chatgpt/tool/search.rs b/dsh-builtin/src/chatgpt/tool/search.rs
index 5f17995..2a02b11 100644
--- a/dsh-builtin/src/chatgpt/tool/search.rs
+++ b/dsh-builtin/src/chatgpt/tool/search.rs
@@ -65,6 +65,12 @@ pub(crate) fn run(arguments: &str, _proxy: &mut dyn ShellProxy) -> Result<String
         return Err(format!("chat: path `{path_value}` does not exist"));
     }
 
+    if super::gitignore::is_gitignored(&normalized_abs_path, &normalized_current_dir) {
+        return Err(format!(
+            "chat: search tool path `{path_value}` is ignored by .gitignore"
+        ));
+    }
+
     let mut results = Vec::new();
     let max_results = 50;
 
-- 
2.43.0


From 68f1954852102f1a3e6ca3cf85f835a04d1acc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 05/42] fix: refuse AI tool paths that go through a dangling
 symlink

---
 dsh-builtin/src/chatgpt/tool/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsh-builtin/src/chatgpt/tool/mod.rs b/dsh-builtin/src/chatgpt/tool/mod.rs
index 6cefe92..e95c14b 100644
--- a/dsh-builtin/src/chatgpt/tool/mod.rs
+++ b/dsh-builtin/src/chatgpt/tool/mod.rs
@@ -143,6 +143,14 @@ fn resolve_with_existing_ancestor(path: &Path) -> Result<PathBuf, String> {
             });
         }
 
+        // A dangling symlink would be followed when the path is written.
+        if current.is_symlink() {
+            return Err(format!(
+                "chat: path `{}` contains a symlink to a missing target",
+                path.to_string_lossy()
+            ));
+        }
+
         let name = current.file_name().ok_or_else(|| {
             format!(
                 "chat: path `{}` has no existing ancestor",
-- 
2.43.0


From 2e025638d2e9972767bf6dc98b7a6a72f172c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 06/42] fix: notebook-play runs nothing at the end of its input

---
 dsh-builtin/src/notebook_play.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsh-builtin/src/notebook_play.rs b/dsh-builtin/src/notebook_play.rs
index 70224c0..75bd403 100644
--- a/dsh-builtin/src/notebook_play.rs
+++ b/dsh-builtin/src/notebook_play.rs
@@ -58,7 +58,10 @@ fn run_play(ctx: &Context, path: &str, proxy: &mut dyn ShellProxy) -> Result<()>
         let _ = io::stdout().flush();
 
         let mut input = String::new();
-        io::stdin().read_line(&mut input)?;
+        // End of input is not an answer
+        if io::stdin().read_line(&mut input)? == 0 {
+            break;
+        }
         let choice = input.trim().to_lowercase();
 
         if choice == "q" {
-- 
2.43.0


From 4b55d51996e736ebb9ac862a417ae6b7dff838ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 07/42] fix: apply the secret filter when an accepted
 suggestion is learned

---
 dsh/src/repl/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index ee3f56d..60b44c0 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -592,9 +592,17 @@ impl<'a> Repl<'a> {
     }
 
     fn learn_suggestion(&self, suggestion: &str) {
-        if let Some(history) = &self.shell.cmd_history
+        let filtered = self
+            .shell
+            .environment
+            .read()
+            .secret_manager
+            .process_for_history(suggestion);
+
+        if let Some(command) = filtered
+            && let Some(history) = &self.shell.cmd_history
             && let Some(mut history) = history.try_lock()
-            && let Err(e) = history.write_history(suggestion)
+            && let Err(e) = history.write_history(&command)
         {
             warn!("Failed to learn suggestion: {}", e);
         }
-- 
2.43.0


From 6e6c64f31f1a3d972518526cf2e185c48bcbcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 08/42] fix: apply the default secret filter to imported
 history

---
 dsh/src/history_import.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsh/src/history_import.rs b/dsh/src/history_import.rs
index 5f525a1..1fc5d51 100644
--- a/dsh/src/history_import.rs
+++ b/dsh/src/history_import.rs
@@ -1,4 +1,5 @@
 use crate::history::History;
+use crate::secrets::SecretManager;
 use anyhow::{Context as _, Result, bail};
 use std::fs::File;
 use std::io::{BufRead, BufReader};
@@ -58,7 +59,6 @@ impl HistoryImporter for FishHistoryImporter {
         })?;
 
         let mut reader = BufReader::new(file);
-        let mut count = 0;
         let mut in_cmd_block = false;
         let mut current_cmd = String::new();
         let mut line_buffer = Vec::new();
@@ -85,7 +85,6 @@ impl HistoryImporter for FishHistoryImporter {
                 if in_cmd_block && !current_cmd.is_empty() {
                     // If we see a new - cmd: but didn't see when: yet
                     entries.push((current_cmd.clone(), chrono::Local::now().timestamp()));
-                    count += 1;
                 }
 
                 let cmd_part = trimmed.strip_prefix("- cmd:").unwrap_or("").trim();
@@ -99,7 +98,6 @@ impl HistoryImporter for FishHistoryImporter {
 
                 if !current_cmd.is_empty() {
                     entries.push((current_cmd.clone(), when));
-                    count += 1;
                     current_cmd.clear();
                 }
                 in_cmd_block = false;
@@ -110,9 +108,16 @@ impl HistoryImporter for FishHistoryImporter {
 
         if in_cmd_block && !current_cmd.is_empty() {
             entries.push((current_cmd, chrono::Local::now().timestamp()));
-            count += 1;
         }
 
+        // The configuration is not loaded during an import: filter with the default secret rules
+        let secrets = SecretManager::new();
+        let entries: Vec<(String, i64)> = entries
+            .into_iter()
+            .filter_map(|(cmd, when)| Some((secrets.process_for_history(&cmd)?, when)))
+            .collect();
+        let count = entries.len();
+
         if !entries.is_empty() {
             debug!("Writing {} entries to history...", entries.len());
             history.write_batch(entries)?;
-- 
2.43.0


From 3561c89f4f074205386b7145f8e89274d731a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 09/42] fix: redact what the user's secret patterns match

---
 dsh/src/secrets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsh/src/secrets.rs b/dsh/src/secrets.rs
index 7d31721..cf95328 100644
--- a/dsh/src/secrets.rs
+++ b/dsh/src/secrets.rs
@@ -223,6 +223,12 @@ impl SecretManager {
                 .to_string();
         }
 
+        for pattern in self.custom_patterns.read().iter() {
+            result = pattern
+                .replace_all(&result, regex::NoExpand("***"))
+                .to_string();
+        }
+
         result
     }
 
-- 
2.43.0


From 296f9a3bab3fc818f707357a897bd2ff1268fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 10/42] fix: look a command word up as a Lisp symbol instead of
 evaluating it

---
 dsh/src/lisp/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index 9847db1..aee438c 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -270,7 +270,8 @@ impl LispEngine {
     }
 
     pub fn is_export(&self, name: &str) -> bool {
-        if let Ok(Value::Lambda(l)) = self.run(name) {
+        // A command word is a name: it is looked up, never evaluated
+        if let Some(Value::Lambda(l)) = self.env.borrow().get(&Symbol::from(name)) {
             l.export
         } else {
             false
-- 
2.43.0


From a4bd7ad7bc3ab825fe3dc3e45876b753c9f9c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 11/42] fix: pass hook arguments as values instead of splicing
 them into Lisp source

---
 dsh/src/lisp/mod.rs    | 17 ++++++++++++
 dsh/src/proxy/mod.rs   | 10 ++-----
 dsh/src/shell/hooks.rs | 60 ++++++++++++++++++++++--------------------
 3 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index aee438c..b95c1d2 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -213,6 +213,23 @@ impl LispEngine {
         Ok(res)
     }
 
+    /// Call every function of the named hook list with these values.
+    /// The values are passed as they are and never become Lisp source.
+    pub fn call_hooks(&self, hooks: &str, args: Vec<Value>) -> anyhow::Result<Vec<Value>> {
+        let hooks = self.env.borrow().get(&Symbol::from(hooks));
+        let Some(Value::List(hooks)) = hooks else {
+            return Ok(Vec::new());
+        };
+
+        hooks
+            .into_iter()
+            .map(|hook| {
+                let call = List::from_iter(args.clone()).cons(hook);
+                Ok(eval(Rc::clone(&self.env), &Value::List(call))?)
+            })
+            .collect()
+    }
+
     /// Execute all functions in a hook list safely
     #[allow(dead_code)]
     pub fn execute_hook_list(&self, hook_list: &Value) -> anyhow::Result<()> {
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index bf253e3..ea01153 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -239,15 +239,9 @@ impl ShellProxy for Shell {
             return Ok(());
         }
 
-        let args_str = args
-            .iter()
-            .map(|a| format!("\"{}\"", a.replace("\"", "\\\"")))
-            .collect::<Vec<_>>()
-            .join(" ");
-
-        let lisp_code = format!("(map (lambda (hook) (hook {args_str})) {hook_var})");
+        let args = args.into_iter().map(crate::lisp::Value::String).collect();
 
-        if let Err(e) = self.lisp_engine.borrow().run(&lisp_code) {
+        if let Err(e) = self.lisp_engine.borrow().call_hooks(&hook_var, args) {
             // We use warn! but return Ok because hook failure shouldn't crash the command
             warn!("Failed to execute hook {}: {}", hook_name, e);
         }
diff --git a/dsh/src/shell/hooks.rs b/dsh/src/shell/hooks.rs
index 7f59d1a..7e276df 100644
--- a/dsh/src/shell/hooks.rs
+++ b/dsh/src/shell/hooks.rs
@@ -1,5 +1,6 @@
 use crate::direnv;
 use crate::environment::Environment;
+use crate::lisp::Value;
 use crate::shell::Shell;
 use anyhow::Result;
 use parking_lot::RwLock;
@@ -47,11 +48,10 @@ pub fn exec_chpwd_hooks(shell: &mut Shell, pwd: &str) -> Result<()> {
                 .insert("DSH_PROJECT".to_string(), name.clone());
             debug!("Entered project: {}", name);
 
-            let lisp_code = format!(
-                "(when (bound? '*on-project-switch-hooks*) (map (lambda (hook) (hook \"{}\")) *on-project-switch-hooks*))",
-                name.replace("\"", "\\\"")
-            );
-            if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
+            if let Err(e) = shell.lisp_engine.borrow().call_hooks(
+                "*on-project-switch-hooks*",
+                vec![Value::String(name.clone())],
+            ) {
                 debug!("Failed to execute on-project-switch-hooks: {}", e);
             }
         } else {
@@ -101,12 +101,13 @@ pub fn exec_pre_exec_hooks(shell: &Shell, command: &str) -> Result<()> {
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\")) *pre-exec-hooks*)",
-        command.replace("\"", "\\\"")
-    );
+    let args = vec![Value::String(command.to_string())];
 
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
+    if let Err(e) = shell
+        .lisp_engine
+        .borrow()
+        .call_hooks("*pre-exec-hooks*", args)
+    {
         debug!("Failed to execute pre-exec hooks: {}", e);
     }
     Ok(())
@@ -123,13 +124,16 @@ pub fn exec_post_exec_hooks(shell: &Shell, command: &str, exit_code: i32) -> Res
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\" {})) *post-exec-hooks*)",
-        command.replace("\"", "\\\""),
-        exit_code
-    );
+    let args = vec![
+        Value::String(command.to_string()),
+        Value::Int(exit_code.into()),
+    ];
 
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
+    if let Err(e) = shell
+        .lisp_engine
+        .borrow()
+        .call_hooks("*post-exec-hooks*", args)
+    {
         debug!("Failed to execute post-exec hooks: {}", e);
     }
     Ok(())
@@ -148,13 +152,13 @@ pub fn exec_command_not_found_hooks(shell: &Shell, command: &str) -> bool {
         return false;
     }
 
-    let lisp_code = format!(
-        "(let ((results (map (lambda (hook) (hook \"{}\")) *command-not-found-hooks*)))
-          (filter (lambda (r) r) results))",
-        command.replace("\"", "\\\"")
-    );
+    let args = vec![Value::String(command.to_string())];
 
-    match shell.lisp_engine.borrow().run(&lisp_code) {
+    match shell
+        .lisp_engine
+        .borrow()
+        .call_hooks("*command-not-found-hooks*", args)
+    {
         Ok(_) => {
             // Check if at least one hook returned true (non-nil)
             // For now, we always return false to let the normal error flow continue
@@ -180,13 +184,13 @@ pub fn exec_completion_hooks(shell: &Shell, input: &str, cursor: usize) -> Resul
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\" {})) *completion-hooks*)",
-        input.replace("\"", "\\\""),
-        cursor
-    );
+    let args = vec![Value::String(input.to_string()), Value::Int(cursor as i64)];
 
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
+    if let Err(e) = shell
+        .lisp_engine
+        .borrow()
+        .call_hooks("*completion-hooks*", args)
+    {
         debug!("Failed to execute completion hooks: {}", e);
     }
     Ok(())
-- 
2.43.0


From fe3bffd020fed492589bcb62ae162688d8ef628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 12/42] fix: substitute completion script variables as data,
 not as shell code

---
 dsh/src/completion/generators/script.rs | 57 ++++++++++++++++++-------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/dsh/src/completion/generators/script.rs b/dsh/src/completion/generators/script.rs
index 8c1efbd..41f0fda 100644
--- a/dsh/src/completion/generators/script.rs
+++ b/dsh/src/completion/generators/script.rs
@@ -98,6 +98,35 @@ fn run_without_timeout(command: &str) -> Result<String> {
     }
 }
 
+/// Quote a value for the shell; a plain word (or nothing) is left as it is.
+fn quote_value(value: &str) -> String {
+    if value
+        .chars()
+        .all(|c| c.is_alphanumeric() || "_-./:@%+,".contains(c))
+    {
+        value.to_string()
+    } else {
+        format!("'{}'", value.replace('\'', "'\\''"))
+    }
+}
+
+/// Give a variable of a completion script its value.
+fn substitute_variable(script: String, name: &str, value: &str) -> String {
+    let key = format!("${}", name);
+    if !script.contains(&key) {
+        return script;
+    }
+    let quoted = quote_value(value);
+    if quoted == value {
+        // nothing the shell would interpret: substitute in place
+        return script.replace(&key, &quoted);
+    }
+    // let the shell expand it, whatever quotes the script puts around it
+    let mut script = script.replace(&key, &format!("${{{}}}", name));
+    script.insert_str(0, &format!("{}={}; ", name, quoted));
+    script
+}
+
 pub struct ScriptGenerator<R: ScriptRunner = DefaultScriptRunner> {
     runner: R,
 }
@@ -112,24 +141,20 @@ impl<R: ScriptRunner> ScriptGenerator<R> {
         command_template: &str,
         parsed: &ParsedCommandLine,
     ) -> Result<Vec<CompletionCandidate>> {
-        // Simple variable substitution
-        let mut command = command_template.to_string();
-        command = command.replace("$COMMAND", &parsed.command);
-        if let Some(arg) = &parsed.current_arg {
-            command = command.replace("$CURRENT_TOKEN", arg);
-        } else {
-            command = command.replace("$CURRENT_TOKEN", "");
-        }
-        if let Some(first_sub) = parsed.subcommand_path.first() {
-            command = command.replace("$SUBCOMMAND", first_sub);
-        } else {
-            command = command.replace("$SUBCOMMAND", "");
-        }
+        // Variable substitution; values are data and never become part of the script
+        let current_token = parsed.current_arg.as_deref().unwrap_or_default();
+        let subcommand = parsed
+            .subcommand_path
+            .first()
+            .map(String::as_str)
+            .unwrap_or_default();
 
-        // Quote arguments to prevent injection if possible, but basic replacement for now
+        let mut command = command_template.to_string();
+        command = substitute_variable(command, "COMMAND", &parsed.command);
+        command = substitute_variable(command, "CURRENT_TOKEN", current_token);
+        command = substitute_variable(command, "SUBCOMMAND", subcommand);
         for (i, arg) in parsed.specified_arguments.iter().enumerate() {
-            let key = format!("$ARG_{}", i);
-            command = command.replace(&key, arg);
+            command = substitute_variable(command, &format!("ARG_{}", i), arg);
         }
 
         // Execute command
-- 
2.43.0


From df156715cec337904b3c360e4a1aad8b67c76c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 13/42] fix: safe-run and trigger keep the words of their
 command apart

---
 dsh-builtin/src/safe_run.rs | 6 +++++-
 dsh-builtin/src/trigger.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsh-builtin/src/safe_run.rs b/dsh-builtin/src/safe_run.rs
index c602d9b..6f42a5b 100644
--- a/dsh-builtin/src/safe_run.rs
+++ b/dsh-builtin/src/safe_run.rs
@@ -21,7 +21,11 @@ pub fn command(ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) ->
 
     // 1. Construct the full command string
     let cmd_args = &argv[1..];
-    let full_command = cmd_args.join(" ");
+    // one argument is a command line; several are the words of a command
+    let full_command = match cmd_args {
+        [line] => line.clone(),
+        words => shell_words::join(words),
+    };
 
     // 2. Initialize LLM client
     let config = load_openai_config(proxy);
diff --git a/dsh-builtin/src/trigger.rs b/dsh-builtin/src/trigger.rs
index d4cebd4..791d543 100644
--- a/dsh-builtin/src/trigger.rs
+++ b/dsh-builtin/src/trigger.rs
@@ -18,7 +18,11 @@ pub fn command(ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) ->
 
     let pattern_str = &argv[1];
     let cmd_parts = &argv[2..];
-    let cmd_line = cmd_parts.join(" ");
+    // one argument is a command line; several are the words of a command
+    let cmd_line = match cmd_parts {
+        [line] => line.clone(),
+        words => shell_words::join(words),
+    };
 
     let pattern = match Pattern::new(pattern_str) {
         Ok(p) => p,
-- 
2.43.0


From c2b5553f4afdbfbcfdde2728afe83cae79569ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 14/42] fix: run bookmarks, tasks and snippets with sh -c
 instead of sh sh -c

---
 dsh-builtin/src/bookmark.rs | 2 +-
 dsh-builtin/src/snippet.rs  | 6 +-----
 dsh-builtin/src/task.rs     | 8 ++------
 3 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/dsh-builtin/src/bookmark.rs b/dsh-builtin/src/bookmark.rs
index 9f3874b..2663c96 100644
--- a/dsh-builtin/src/bookmark.rs
+++ b/dsh-builtin/src/bookmark.rs
@@ -187,7 +187,7 @@ fn run_bookmark(ctx: &Context, name: &str, proxy: &mut dyn ShellProxy) -> ExitSt
     if let Some((command, _)) = proxy.get_bookmark(name) {
         proxy.record_bookmark_use(name);
         ctx.write_stdout(&format!("▶ Running: {}", command)).ok();
-        match proxy.dispatch(ctx, "sh", vec!["sh".to_string(), "-c".to_string(), command]) {
+        match proxy.dispatch(ctx, "sh", vec!["-c".to_string(), command]) {
             Ok(_) => ExitStatus::ExitedWith(0),
             Err(e) => {
                 ctx.write_stderr(&format!("bookmark: execution failed: {e}"))
diff --git a/dsh-builtin/src/snippet.rs b/dsh-builtin/src/snippet.rs
index af85d86..f240b4f 100644
--- a/dsh-builtin/src/snippet.rs
+++ b/dsh-builtin/src/snippet.rs
@@ -213,11 +213,7 @@ fn run_snippet(ctx: &Context, name: &str, proxy: &mut dyn ShellProxy) -> ExitSta
         // Execute the command via shell
         ctx.write_stdout(&format!("▶ Running: {}", snippet.command))
             .ok();
-        match proxy.dispatch(
-            ctx,
-            "sh",
-            vec!["sh".to_string(), "-c".to_string(), snippet.command],
-        ) {
+        match proxy.dispatch(ctx, "sh", vec!["-c".to_string(), snippet.command]) {
             Ok(_) => ExitStatus::ExitedWith(0),
             Err(e) => {
                 ctx.write_stderr(&format!("snippet: execution failed: {e}"))
diff --git a/dsh-builtin/src/task.rs b/dsh-builtin/src/task.rs
index 4c2692d..9adeee1 100644
--- a/dsh-builtin/src/task.rs
+++ b/dsh-builtin/src/task.rs
@@ -165,7 +165,7 @@ pub fn command(ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) ->
         // Print what we run
         let _ = ctx.write_stdout(&format!("Running: {}\n", command));
 
-        match proxy.dispatch(ctx, "sh", vec!["sh".to_string(), "-c".to_string(), command]) {
+        match proxy.dispatch(ctx, "sh", vec!["-c".to_string(), command]) {
             Ok(_) => ExitStatus::ExitedWith(0),
             Err(e) => {
                 let _ = ctx.write_stderr(&format!("Execution failed: {}\n", e));
@@ -347,11 +347,7 @@ fn execute_task(ctx: &Context, task: &Task, proxy: &mut dyn ShellProxy) -> ExitS
         "Running [{}] {} -> {}\n",
         task.source, task.name, task.command
     ));
-    match proxy.dispatch(
-        ctx,
-        "sh",
-        vec!["sh".to_string(), "-c".to_string(), task.command.clone()],
-    ) {
+    match proxy.dispatch(ctx, "sh", vec!["-c".to_string(), task.command.clone()]) {
         Ok(_) => ExitStatus::ExitedWith(0),
         Err(e) => {
             let _ = ctx.write_stderr(&format!("Execution failed: {}\n", e));
-- 
2.43.0


From 62b8077ef2ca21b546b2d1bec2d858c8d3773458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 15/42] fix: quote task names in the command lines built from
 them

---
 dsh-builtin/src/project_context.rs | 11 +++++++----
 dsh-builtin/src/task.rs            |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/dsh-builtin/src/project_context.rs b/dsh-builtin/src/project_context.rs
index 7ce695b..befe308 100644
--- a/dsh-builtin/src/project_context.rs
+++ b/dsh-builtin/src/project_context.rs
@@ -428,7 +428,7 @@ fn detect_mise_tasks(root: &Path) -> Result<Vec<TaskDefinition>> {
                 tasks.push(TaskDefinition {
                     source: "mise".to_string(),
                     name: name.clone(),
-                    command: format!("mise run {}", name),
+                    command: format!("mise run {}", shell_words::quote(name)),
                 });
             }
         }
@@ -482,7 +482,7 @@ fn detect_taskfile_tasks(root: &Path) -> Result<Vec<TaskDefinition>> {
             tasks.push(TaskDefinition {
                 source: "taskfile".to_string(),
                 name: name.to_string(),
-                command: format!("task {}", name),
+                command: format!("task {}", shell_words::quote(name)),
             });
         }
     }
@@ -504,7 +504,7 @@ fn detect_turbo_tasks(root: &Path) -> Result<Vec<TaskDefinition>> {
             tasks.push(TaskDefinition {
                 source: "turbo".to_string(),
                 name: name.clone(),
-                command: format!("turbo run {}", name),
+                command: format!("turbo run {}", shell_words::quote(name)),
             });
         }
     }
@@ -538,7 +538,10 @@ fn detect_nx_tasks(root: &Path) -> Result<Vec<TaskDefinition>> {
             tasks.push(TaskDefinition {
                 source: "nx".to_string(),
                 name: name.clone(),
-                command: format!("nx run {}:{}", project_name, name),
+                command: format!(
+                    "nx run {}",
+                    shell_words::quote(&format!("{}:{}", project_name, name))
+                ),
             });
         }
     }
diff --git a/dsh-builtin/src/task.rs b/dsh-builtin/src/task.rs
index 9adeee1..e1410e5 100644
--- a/dsh-builtin/src/task.rs
+++ b/dsh-builtin/src/task.rs
@@ -392,7 +392,7 @@ fn detect_tasks_in_dir(current_dir: &Path) -> Result<Vec<TaskInfo>> {
                 source: manager.clone(),
                 name: name.clone(),
                 // e.g. "npm run build"
-                command: format!("{} run {}", manager, name),
+                command: format!("{} run {}", manager, shell_words::quote(name)),
             });
         }
     }
@@ -428,7 +428,7 @@ fn detect_tasks_in_dir(current_dir: &Path) -> Result<Vec<TaskInfo>> {
                     tasks.push(TaskInfo {
                         source: "make".to_string(),
                         name: target.to_string(),
-                        command: format!("make {}", target),
+                        command: format!("make {}", shell_words::quote(target)),
                     });
                 }
             }
@@ -457,7 +457,7 @@ fn detect_tasks_in_dir(current_dir: &Path) -> Result<Vec<TaskInfo>> {
                 tasks.push(TaskInfo {
                     source: "deno".to_string(),
                     name: name.clone(),
-                    command: format!("deno task {}", name),
+                    command: format!("deno task {}", shell_words::quote(name)),
                 });
             }
         }
@@ -479,7 +479,7 @@ fn detect_tasks_in_dir(current_dir: &Path) -> Result<Vec<TaskInfo>> {
                 tasks.push(TaskInfo {
                     source: "just".to_string(),
                     name: name.to_string(),
-                    command: format!("just {}", name),
+                    command: format!("just {}", shell_words::quote(name)),
                 });
             }
         }
-- 
2.43.0


From 13779bed94caa2bf8ea1dc54176bcd1c2cc8563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 16/42] fix: pass the MCP log file name to the wrapper script
 as an argument

---
 dsh-builtin/src/chatgpt/mcp/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsh-builtin/src/chatgpt/mcp/mod.rs b/dsh-builtin/src/chatgpt/mcp/mod.rs
index a7e79a7..c27b0eb 100644
--- a/dsh-builtin/src/chatgpt/mcp/mod.rs
+++ b/dsh-builtin/src/chatgpt/mcp/mod.rs
@@ -928,8 +928,9 @@ async fn list_tools_via_transport(transport: McpTransport) -> Result<Vec<Tool>>
             // Use sh wrapper to force stderr redirection, bypassing rmcp's potential overrides
             let mut cmd = Command::new("sh");
             cmd.arg("-c");
-            cmd.arg(format!("exec \"$@\" 2>> \"{}\"", log_filename));
+            cmd.arg("log=$1; shift; exec \"$@\" 2>> \"$log\"");
             cmd.arg("--");
+            cmd.arg(&log_filename);
             cmd.arg(&command);
             for arg in &args {
                 cmd.arg(arg);
@@ -994,8 +995,9 @@ async fn call_tool_via_transport(
             // Use sh wrapper to force stderr redirection, bypassing rmcp's potential overrides
             let mut cmd = Command::new("sh");
             cmd.arg("-c");
-            cmd.arg(format!("exec \"$@\" 2>> \"{}\"", log_filename));
+            cmd.arg("log=$1; shift; exec \"$@\" 2>> \"$log\"");
             cmd.arg("--");
+            cmd.arg(&log_filename);
             cmd.arg(&command);
             for arg in &args {
                 cmd.arg(arg);
-- 
2.43.0


From 3a37db486538f4d10d44b91b790f9999ccc4acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 17/42] fix: pass an MCP server label to Lisp as a value

---
 dsh-builtin/src/mcp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsh-builtin/src/mcp.rs b/dsh-builtin/src/mcp.rs
index c0502ba..81605b6 100644
--- a/dsh-builtin/src/mcp.rs
+++ b/dsh-builtin/src/mcp.rs
@@ -82,8 +82,8 @@ fn cmd_status(ctx: &Context, proxy: &mut dyn ShellProxy) -> ExitStatus {
 }
 
 fn cmd_connect(ctx: &Context, label: &str, proxy: &mut dyn ShellProxy) -> ExitStatus {
-    let code = format!("(mcp-connect \"{}\")", label);
-    if let Err(e) = proxy.dispatch(ctx, "lisp", vec!["lisp".to_string(), code]) {
+    let call = vec!["mcp-connect".to_string(), label.to_string()];
+    if let Err(e) = proxy.dispatch(ctx, "lisp-run", call) {
         eprintln!("Error: {}", e);
         return ExitStatus::ExitedWith(1);
     }
@@ -91,8 +91,8 @@ fn cmd_connect(ctx: &Context, label: &str, proxy: &mut dyn ShellProxy) -> ExitSt
 }
 
 fn cmd_disconnect(ctx: &Context, label: &str, proxy: &mut dyn ShellProxy) -> ExitStatus {
-    let code = format!("(mcp-disconnect \"{}\")", label);
-    if let Err(e) = proxy.dispatch(ctx, "lisp", vec!["lisp".to_string(), code]) {
+    let call = vec!["mcp-disconnect".to_string(), label.to_string()];
+    if let Err(e) = proxy.dispatch(ctx, "lisp-run", call) {
         eprintln!("Error: {}", e);
         return ExitStatus::ExitedWith(1);
     }
-- 
2.43.0


From 9c4a5f9ed3ea0c1e50ec00cc64495be49daaaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 18/42] fix: cut previews and AI input at a character boundary

---
 dsh-builtin/src/bookmark.rs            |  2 +-
 dsh-builtin/src/out.rs                 |  2 +-
 dsh-builtin/src/safe_run.rs            |  4 ++--
 dsh-builtin/src/snippet.rs             |  2 +-
 dsh/src/ai_features/analysis.rs        | 15 ++++++++++++---
 dsh/src/lisp/stdlib/mcp.rs             |  2 +-
 dsh/src/repl/key_handlers/execution.rs |  2 +-
 dsh/src/safety/mod.rs                  |  2 +-
 8 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/dsh-builtin/src/bookmark.rs b/dsh-builtin/src/bookmark.rs
index 2663c96..63803cf 100644
--- a/dsh-builtin/src/bookmark.rs
+++ b/dsh-builtin/src/bookmark.rs
@@ -109,7 +109,7 @@ fn list_all_bookmarks(ctx: &Context, proxy: &mut dyn ShellProxy) -> ExitStatus {
         .map(|b| BookmarkEntry {
             name: b.0,
             command: if b.1.len() > 50 {
-                format!("{}...", &b.1[..47])
+                format!("{}...", &b.1[..b.1.floor_char_boundary(47)])
             } else {
                 b.1
             },
diff --git a/dsh-builtin/src/out.rs b/dsh-builtin/src/out.rs
index 3c6b37d..88aa857 100644
--- a/dsh-builtin/src/out.rs
+++ b/dsh-builtin/src/out.rs
@@ -81,7 +81,7 @@ fn list_outputs(proxy: &mut dyn ShellProxy) -> ExitStatus {
             found = true;
             let preview = output.lines().next().unwrap_or("(empty)");
             let preview = if preview.len() > 60 {
-                format!("{}...", &preview[..57])
+                format!("{}...", &preview[..preview.floor_char_boundary(57)])
             } else {
                 preview.to_string()
             };
diff --git a/dsh-builtin/src/safe_run.rs b/dsh-builtin/src/safe_run.rs
index 6f42a5b..9566884 100644
--- a/dsh-builtin/src/safe_run.rs
+++ b/dsh-builtin/src/safe_run.rs
@@ -294,7 +294,7 @@ fn inspect_and_run(
         let preview = if stdout.len() > preview_limit {
             format!(
                 "{}... (truncated, total length: {})",
-                &stdout[..preview_limit],
+                &stdout[..stdout.floor_char_boundary(preview_limit)],
                 stdout.len()
             )
         } else {
@@ -394,7 +394,7 @@ Format your response as valid JSON:
         ctx.write_stderr(&format!(
             "\n{cyan}--- Content Preview ({} chars) ---{reset}\n{}\n{cyan}--- End Preview ---{reset}\n",
              preview.len(),
-             if preview.len() > 2000 { format!("{}... (preview truncated to 2kb)", &preview[..2000]) } else { preview.clone() },
+             if preview.len() > 2000 { format!("{}... (preview truncated to 2kb)", &preview[..preview.floor_char_boundary(2000)]) } else { preview.clone() },
              cyan=cyan, reset=reset
         )).ok();
 
diff --git a/dsh-builtin/src/snippet.rs b/dsh-builtin/src/snippet.rs
index f240b4f..6b39a2b 100644
--- a/dsh-builtin/src/snippet.rs
+++ b/dsh-builtin/src/snippet.rs
@@ -116,7 +116,7 @@ fn list_all_snippets(ctx: &Context, proxy: &mut dyn ShellProxy) -> ExitStatus {
         .map(|s| SnippetEntry {
             name: s.name,
             command: if s.command.len() > 50 {
-                format!("{}...", &s.command[..47])
+                format!("{}...", &s.command[..s.command.floor_char_boundary(47)])
             } else {
                 s.command
             },
diff --git a/dsh/src/ai_features/analysis.rs b/dsh/src/ai_features/analysis.rs
index 3575562..3710d0d 100644
--- a/dsh/src/ai_features/analysis.rs
+++ b/dsh/src/ai_features/analysis.rs
@@ -123,7 +123,10 @@ pub async fn diagnose_output<S: AiService + ?Sized>(
 
     // Truncate output if too long
     let truncated_output = if sanitized_output.len() > 4000 {
-        format!("{}...(truncated)", &sanitized_output[..4000])
+        format!(
+            "{}...(truncated)",
+            &sanitized_output[..sanitized_output.floor_char_boundary(4000)]
+        )
     } else {
         sanitized_output.to_string()
     };
@@ -160,7 +163,10 @@ pub async fn diagnose_output_with_history<S: AiService + ?Sized>(
 
     // Truncate output if too long
     let truncated_output = if sanitized_output.len() > 4000 {
-        format!("{}...(truncated)", &sanitized_output[..4000])
+        format!(
+            "{}...(truncated)",
+            &sanitized_output[..sanitized_output.floor_char_boundary(4000)]
+        )
     } else {
         sanitized_output.to_string()
     };
@@ -229,7 +235,10 @@ pub async fn analyze_output<S: AiService + ?Sized>(
 
     // Truncate output if too long to avoid token limits
     let truncated_output = if sanitized_output.len() > 8000 {
-        format!("{}...(truncated)", &sanitized_output[..8000])
+        format!(
+            "{}...(truncated)",
+            &sanitized_output[..sanitized_output.floor_char_boundary(8000)]
+        )
     } else {
         sanitized_output.to_string()
     };
diff --git a/dsh/src/lisp/stdlib/mcp.rs b/dsh/src/lisp/stdlib/mcp.rs
index c0b4a94..b96452c 100644
--- a/dsh/src/lisp/stdlib/mcp.rs
+++ b/dsh/src/lisp/stdlib/mcp.rs
@@ -164,7 +164,7 @@ pub fn register(env: &mut Env) {
 
                 // Truncate description if too long
                 let desc = if desc.len() > 50 {
-                    format!("{}...", &desc[..47])
+                    format!("{}...", &desc[..desc.floor_char_boundary(47)])
                 } else {
                     desc.to_string()
                 };
diff --git a/dsh/src/repl/key_handlers/execution.rs b/dsh/src/repl/key_handlers/execution.rs
index 7b20c10..2a86227 100644
--- a/dsh/src/repl/key_handlers/execution.rs
+++ b/dsh/src/repl/key_handlers/execution.rs
@@ -183,7 +183,7 @@ pub(crate) async fn handle_execute(repl: &mut Repl<'_>) -> Result<()> {
                     "Command Failed"
                 };
                 let cmd_preview = if input_str.len() > 50 {
-                    format!("{}...", &input_str[..47])
+                    format!("{}...", &input_str[..input_str.floor_char_boundary(47)])
                 } else {
                     input_str.clone()
                 };
diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index 96164d5..7a701ca 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -721,7 +721,7 @@ impl SafetyGuard {
 
         // Truncate if too long
         if sanitized.len() > max_length {
-            sanitized.truncate(max_length);
+            sanitized.truncate(sanitized.floor_char_boundary(max_length));
             sanitized.push_str("...(truncated)");
         }
 
-- 
2.43.0


From 16394edc70d76137eb1a6c245b6bf66adea70a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 19/42] fix: the Lisp reader and printer step over whole
 characters

---
 dsh/src/lisp/model/lambda.rs |  5 ++++-
 dsh/src/lisp/parser.rs       | 21 +++++++++++----------
 dsh/src/lisp/utils.rs        |  7 +++++--
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/dsh/src/lisp/model/lambda.rs b/dsh/src/lisp/model/lambda.rs
index 1047cf9..98b4c9b 100644
--- a/dsh/src/lisp/model/lambda.rs
+++ b/dsh/src/lisp/model/lambda.rs
@@ -41,7 +41,10 @@ impl std::fmt::Display for Lambda {
                 .map(|sym| sym.0.as_str())
                 .collect::<Vec<&str>>()
                 .join(" "),
-            &body_str[1..body_str.chars().count() - 1]
+            body_str
+                .strip_prefix('(')
+                .and_then(|s| s.strip_suffix(')'))
+                .unwrap_or(&body_str)
         )
     }
 }
diff --git a/dsh/src/lisp/parser.rs b/dsh/src/lisp/parser.rs
index cb3c3e7..3e6e62e 100644
--- a/dsh/src/lisp/parser.rs
+++ b/dsh/src/lisp/parser.rs
@@ -217,14 +217,14 @@ fn parse_number(code: &str, index: usize) -> ParseResult {
     })?;
 
     if front_last_char.is_numeric() {
-        let front_last_index = front_last_index + 1;
+        let front_last_index = front_last_index + front_last_char.len_utf8();
 
         let back_end = consume_while(code, front_last_index, |(index, ch)| {
             (index == 0 && ch == '.') || ch.is_numeric()
         });
 
-        if let Some((back_last_index, _)) = back_end {
-            let back_last_index = back_last_index + 1;
+        if let Some((back_last_index, back_last_char)) = back_end {
+            let back_last_index = back_last_index + back_last_char.len_utf8();
 
             if back_last_index >= front_last_index + 2 {
                 if next_char_is_break(code, back_last_index)
@@ -265,17 +265,18 @@ fn parse_number(code: &str, index: usize) -> ParseResult {
 }
 
 fn parse_string(code: &str, index: usize) -> ParseResult {
-    let (last_index, _) = consume_while(code, index, |(index, ch)| {
+    let (last_index, last_char) = consume_while(code, index, |(index, ch)| {
         (index == 0 && ch == '"') || (index > 0 && ch != '"')
     })?;
 
     if last_index > index {
-        if code.as_bytes().get(last_index + 1) == Some(&b'"') {
+        let end = last_index + last_char.len_utf8();
+        if code.as_bytes().get(end) == Some(&b'"') {
             Some(Ok(ParsedAndIndex {
                 parsed: ParseTree::Atom(Value::String(
-                    code.get(index + 1..last_index + 1).unwrap_or("").to_owned(),
+                    code.get(index + 1..end).unwrap_or("").to_owned(),
                 )),
-                index: last_index + 2,
+                index: end + 1,
             }))
         } else {
             Some(Err(ParseError {
@@ -288,10 +289,10 @@ fn parse_string(code: &str, index: usize) -> ParseResult {
 }
 
 fn parse_symbol(code: &str, index: usize) -> ParseResult {
-    let (last_index, _) = consume_while(code, index, |(index, ch)| {
+    let (last_index, last_char) = consume_while(code, index, |(index, ch)| {
         (index == 0 && is_symbol_start(ch)) || (index > 0 && is_symbolic(ch))
     })?;
-    let last_index = last_index + 1;
+    let last_index = last_index + last_char.len_utf8();
 
     if last_index > index {
         Some(Ok(ParsedAndIndex {
@@ -332,7 +333,7 @@ fn consume_whitespace_and_comments(code: &str, index: usize) -> usize {
 
         ch.is_whitespace() || ch == ';' || semicolons >= 2
     })
-    .map(|(index, _)| index + 1)
+    .map(|(index, ch)| index + ch.len_utf8())
     .unwrap_or(index)
 }
 
diff --git a/dsh/src/lisp/utils.rs b/dsh/src/lisp/utils.rs
index a971853..dc7af6e 100644
--- a/dsh/src/lisp/utils.rs
+++ b/dsh/src/lisp/utils.rs
@@ -112,8 +112,11 @@ pub fn unquote(s: &str) -> String {
     if quote != '"' && quote != '\'' && quote != '`' {
         return s.to_string();
     }
-    let s = &s[1..s.len() - 1];
-    s.to_string()
+    // The closing quote may be missing, or be another character.
+    let mut inner = s.chars();
+    inner.next();
+    inner.next_back();
+    inner.as_str().to_string()
 }
 
 pub fn list_of_strings(name: &str, value: &Value) -> Result<Vec<String>, RuntimeError> {
-- 
2.43.0


From a7ece54b6c99981bb487e578223c676535aa9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 20/42] fix: convert the editor's character cursor before
 parsing, and strip the whole history marker

---
 dsh/src/completion/integrated.rs        |  7 ++++++-
 dsh/src/repl/key_handlers/completion.rs | 12 ++++--------
 dsh/src/repl/mod.rs                     |  7 ++++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/dsh/src/completion/integrated.rs b/dsh/src/completion/integrated.rs
index 71e938e..961fab3 100644
--- a/dsh/src/completion/integrated.rs
+++ b/dsh/src/completion/integrated.rs
@@ -221,7 +221,12 @@ impl IntegratedCompletionEngine {
 
     /// Convert ParsedCommand to ParsedCommandLine for dynamic completion
     fn convert_to_parsed_command_line(&self, input: &str, cursor_pos: usize) -> ParsedCommandLine {
-        let mut parsed = self.parser.parse(input, cursor_pos);
+        // The line editor counts characters, the parser bytes.
+        let cursor_byte = input
+            .char_indices()
+            .nth(cursor_pos)
+            .map_or(input.len(), |(index, _)| index);
+        let mut parsed = self.parser.parse(input, cursor_byte);
 
         // For dynamic completion, update command with resolved alias
         parsed.command = self.environment.read().resolve_alias(&parsed.command);
diff --git a/dsh/src/repl/key_handlers/completion.rs b/dsh/src/repl/key_handlers/completion.rs
index b34d15b..36bb37b 100644
--- a/dsh/src/repl/key_handlers/completion.rs
+++ b/dsh/src/repl/key_handlers/completion.rs
@@ -175,10 +175,8 @@ pub(crate) async fn handle_trigger_completion(repl: &mut Repl<'_>) -> Result<Rep
             completion::CompletionSelection::Selected(val) => {
                 debug!("Completion selected: '{}'", val);
                 // For history candidates (indicated by clock emoji), replace entire input
-                let is_history_candidate = val.starts_with("🕒 ");
-                if is_history_candidate {
-                    let command = val[3..].trim();
-                    repl.input.reset(command.to_string());
+                if let Some(command) = val.strip_prefix("🕒 ") {
+                    repl.input.reset(command.trim().to_string());
                 } else {
                     if let Some(range) = replacement_range {
                         repl.input
@@ -226,10 +224,8 @@ pub(crate) async fn handle_trigger_completion(repl: &mut Repl<'_>) -> Result<Rep
         completion::CompletionSelection::Selected(val) => {
             debug!("Completion selected: '{}'", val);
             // For history candidates (indicated by clock emoji), replace entire input
-            let is_history_candidate = val.starts_with("🕒 ");
-            if is_history_candidate {
-                let command = val[3..].trim(); // Remove the clock emoji and any extra spaces
-                repl.input.reset(command.to_string());
+            if let Some(command) = val.strip_prefix("🕒 ") {
+                repl.input.reset(command.trim().to_string());
             } else {
                 // For regular completions, replace the query part with the selected value
                 if let Some(len) = removal_len {
diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index 60b44c0..67dbe95 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -445,7 +445,12 @@ impl<'a> Repl<'a> {
         let explanation_to_show = if let Some(ref ai_exp) = self.current_ai_explanation {
             Some(format!("\u{2728} {}", ai_exp))
         } else {
-            self.argument_explainer.get_explanation(&input, cursor)
+            // The line editor counts characters, the explainer bytes.
+            let cursor_byte = input
+                .char_indices()
+                .nth(cursor)
+                .map_or(input.len(), |(index, _)| index);
+            self.argument_explainer.get_explanation(&input, cursor_byte)
         };
 
         if explanation_to_show != self.last_explanation {
-- 
2.43.0


From 5614275f2bddc47a2e589ccf796233102d1f4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 21/42] fix: match, highlight and abbreviate text with
 multibyte characters without panicking

---
 dsh-builtin/src/dmv.rs      |  6 +++++-
 dsh-builtin/src/ga.rs       |  5 ++---
 dsh/src/parser/highlight.rs | 10 +++++-----
 dsh/src/prompt/mod.rs       |  4 ++--
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/dsh-builtin/src/dmv.rs b/dsh-builtin/src/dmv.rs
index 4ab41d5..4ecfd9d 100644
--- a/dsh-builtin/src/dmv.rs
+++ b/dsh-builtin/src/dmv.rs
@@ -391,7 +391,11 @@ fn pattern_match_impl(text: &str, pattern: &str) -> bool {
                 let remaining_text = &text[text_pos..];
                 let remaining_pattern: String = pattern_chars.collect();
 
-                for i in 0..=remaining_text.len() {
+                let starts = remaining_text
+                    .char_indices()
+                    .map(|(i, _)| i)
+                    .chain([remaining_text.len()]);
+                for i in starts {
                     if pattern_match_impl(&remaining_text[i..], &remaining_pattern) {
                         return true;
                     }
diff --git a/dsh-builtin/src/ga.rs b/dsh-builtin/src/ga.rs
index 6b64d62..4e2ea89 100644
--- a/dsh-builtin/src/ga.rs
+++ b/dsh-builtin/src/ga.rs
@@ -159,10 +159,9 @@ fn get_git_status() -> Result<Vec<GitFileItem>, String> {
     let mut entries = Vec::new();
 
     for line in stdout.lines() {
-        if line.len() < 4 {
+        let Some(path) = line.get(3..).filter(|path| !path.is_empty()) else {
             continue;
-        }
-        let path = &line[3..];
+        };
 
         entries.push(GitFileItem {
             path: path.to_string(),
diff --git a/dsh/src/parser/highlight.rs b/dsh/src/parser/highlight.rs
index a1bfcc7..6e03301 100644
--- a/dsh/src/parser/highlight.rs
+++ b/dsh/src/parser/highlight.rs
@@ -120,9 +120,9 @@ pub fn highlight_error_token(input: &str, location: InputLocation) -> Option<Hig
             if len == 0 {
                 return None;
             }
-            let mut start = pos.min(len);
+            let mut start = input.floor_char_boundary(pos);
             if start == len {
-                start = start.saturating_sub(1);
+                start = input.floor_char_boundary(len - 1);
             }
             let mut end = input[start..]
                 .chars()
@@ -142,10 +142,10 @@ pub fn highlight_error_token(input: &str, location: InputLocation) -> Option<Hig
             if len == 0 {
                 return None;
             }
-            let s = start.min(len.saturating_sub(1));
-            let mut e = end.min(len);
+            let s = input.floor_char_boundary(start.min(len - 1));
+            let mut e = input.ceil_char_boundary(end.min(len));
             if e <= s {
-                e = (s + 1).min(len);
+                e = input.ceil_char_boundary(s + 1);
             }
             Some(HighlightToken {
                 start: s,
diff --git a/dsh/src/prompt/mod.rs b/dsh/src/prompt/mod.rs
index 9d0d350..a016f43 100644
--- a/dsh/src/prompt/mod.rs
+++ b/dsh/src/prompt/mod.rs
@@ -709,8 +709,8 @@ impl Prompt {
             if let Some(branch_ref) = content.strip_prefix("ref: refs/heads/") {
                 return Some(branch_ref.to_string());
             } else {
-                if content.len() >= 7 {
-                    return Some(content[..7].to_string());
+                if let Some(short) = content.get(..7) {
+                    return Some(short.to_string());
                 }
                 return Some("DETACHED".to_string());
             }
-- 
2.43.0


From e05015c1fdd96330fff8b5665b225d4539818253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 22/42] fix: report the status of builtins and of scripts read
 from standard input

---
 dsh/src/lib.rs             | 7 +++++--
 dsh/src/process/builtin.rs | 8 +++-----
 dsh/src/process/fork.rs    | 8 ++++++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/dsh/src/lib.rs b/dsh/src/lib.rs
index 40ce5fb..8079496 100644
--- a/dsh/src/lib.rs
+++ b/dsh/src/lib.rs
@@ -646,6 +646,7 @@ pub async fn run_interactive(shell: &mut Shell, ctx: &mut Context) -> ExitCode {
         debug!("Running in pipe mode");
         let stdin = io::stdin();
         let reader = BufReader::new(stdin);
+        let mut last_exit_code = 0;
 
         for line in reader.lines() {
             match line {
@@ -659,20 +660,22 @@ pub async fn run_interactive(shell: &mut Shell, ctx: &mut Context) -> ExitCode {
                     }
                     debug!("Processing pipe input: {}", input);
                     match repl.shell.eval_str(ctx, input.to_string(), false).await {
-                        Ok(_) => {}
+                        Ok(code) => last_exit_code = code,
                         Err(err) => {
                             eprint!("Error executing '{input}': ");
                             display_user_error(&err, true);
+                            last_exit_code = 1;
                         }
                     }
                 }
                 Err(err) => {
                     eprintln!("Error reading input: {err}");
+                    last_exit_code = 1;
                     break;
                 }
             }
         }
-        ExitCode::from(0)
+        ExitCode::from(last_exit_code.clamp(0, 255) as u8)
     }
 }
 
diff --git a/dsh/src/process/builtin.rs b/dsh/src/process/builtin.rs
index a58392f..b0bc5af 100644
--- a/dsh/src/process/builtin.rs
+++ b/dsh/src/process/builtin.rs
@@ -98,11 +98,9 @@ impl BuiltinProcess {
         let exit = (self.cmd_fn)(ctx, self.argv.to_vec(), shell);
         match exit {
             ExitStatus::ExitedWith(code) => {
-                if code >= 0 {
-                    self.state = ProcessState::Completed(1, None);
-                } else {
-                    self.state = ProcessState::Completed(0, None);
-                }
+                // A status that is no exit code is a failure.
+                let code = u8::try_from(code).unwrap_or(1);
+                self.state = ProcessState::Completed(code, None);
                 debug!("Builtin process {} exited with code: {}", self.name, code);
             }
             ExitStatus::Running(_pid) => {
diff --git a/dsh/src/process/fork.rs b/dsh/src/process/fork.rs
index cfc76c1..7cad4a1 100644
--- a/dsh/src/process/fork.rs
+++ b/dsh/src/process/fork.rs
@@ -4,6 +4,7 @@ use tracing::debug;
 
 use super::builtin::BuiltinProcess;
 use super::process::Process;
+use super::state::ProcessState;
 use crate::shell::Shell;
 use dsh_types::Context;
 use libc::{STDERR_FILENO, STDOUT_FILENO};
@@ -48,8 +49,11 @@ pub(crate) fn fork_builtin_process(
                 std::process::exit(1);
             }
 
-            // Builtin commands complete immediately, so exit with success
-            std::process::exit(0);
+            // Builtin commands complete immediately, so exit with their status
+            match process.state {
+                ProcessState::Completed(code, _) => std::process::exit(i32::from(code)),
+                _ => std::process::exit(0),
+            }
         }
     }
 }
-- 
2.43.0


From 7e91c5bdf7a7bd4a5954784d3802a0b8d38fd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 23/42] fix: open redirections before the command runs, for the
 command they were written on

Output was copied to the file by a detached task fed through a pipe: the copy raced
with the shell's exit, append did not create the file, every stage of a pipeline ran
the redirection (stealing the pipe between the stages), only the last redirection of
a job was kept, and quotes stayed in the file name. The descriptors of one job also
stayed in the context and were closed again by the next job of the list.
---
 dsh/src/process/builtin.rs     |   3 +
 dsh/src/process/io.rs          |  57 ++---------------
 dsh/src/process/job.rs         |  77 ++++++++++++-----------
 dsh/src/process/job_process.rs |  39 ++++++++++--
 dsh/src/process/process.rs     |   3 +
 dsh/src/process/redirect.rs    | 109 ++++++++++++++++++---------------
 dsh/src/shell/eval.rs          |   4 +-
 dsh/src/shell/parse.rs         |  28 +++++----
 8 files changed, 159 insertions(+), 161 deletions(-)

diff --git a/dsh/src/process/builtin.rs b/dsh/src/process/builtin.rs
index b0bc5af..5e21bbf 100644
--- a/dsh/src/process/builtin.rs
+++ b/dsh/src/process/builtin.rs
@@ -6,6 +6,7 @@ use std::os::unix::io::RawFd;
 use tracing::debug;
 
 use super::job_process::JobProcess;
+use super::redirect::Redirect;
 use super::state::ProcessState;
 use crate::shell::Shell;
 
@@ -17,6 +18,7 @@ pub struct BuiltinProcess {
     pub(crate) state: ProcessState, // completed, stopped,
     pub pid: Option<Pid>,
     pub next: Option<Box<JobProcess>>,
+    pub(crate) redirects: Vec<Redirect>,
     pub stdin: RawFd,
     pub stdout: RawFd,
     pub stderr: RawFd,
@@ -59,6 +61,7 @@ impl BuiltinProcess {
             state: ProcessState::Running,
             pid: None,
             next: None,
+            redirects: Vec::new(),
             stdin: STDIN_FILENO,
             stdout: STDOUT_FILENO,
             stderr: STDERR_FILENO,
diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 950b867..08372f2 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -9,7 +9,6 @@ use tokio::io::AsyncBufReadExt;
 use tokio::io::unix::AsyncFd;
 use tokio::{fs, io, time};
 
-use super::redirect::Redirect;
 use crate::terminal::renderer::TerminalRenderer;
 use dsh_types::Context;
 use libc::STDIN_FILENO;
@@ -266,56 +265,12 @@ pub(crate) fn create_pipe(ctx: &mut Context) -> Result<Option<RawFd>> {
     Ok(Some(pout.into_raw_fd()))
 }
 
-pub(crate) fn handle_output_redirect(
-    ctx: &mut Context,
-    redirect: &Option<Redirect>,
-    stdout: RawFd,
-) -> Result<Option<RawFd>> {
-    if let Some(output) = redirect {
-        match output {
-            Redirect::StdoutOutput(_file) | Redirect::StdoutAppend(_file) => {
-                let (pout, pin) = pipe().context("failed pipe")?;
-                ctx.outfile = pin.into_raw_fd();
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::StderrOutput(file) | Redirect::StderrAppend(file) => {
-                tracing::debug!("🔀 REDIRECT: StderrOutput/Append to file: {}", file);
-                let (pout, pin) = pipe().context("failed pipe")?;
-                tracing::debug!(
-                    "🔀 REDIRECT: Created redirect pipe - read_end={:?}, write_end={:?}",
-                    pout,
-                    pin
-                );
-                ctx.errfile = pin.into_raw_fd();
-                tracing::debug!("🔀 REDIRECT: Set ctx.errfile={}", ctx.errfile);
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::StdouterrOutput(file) | Redirect::StdouterrAppend(file) => {
-                tracing::debug!("🔀 REDIRECT: StdouterrOutput/Append to file: {}", file);
-                let (pout, pin) = pipe().context("failed pipe")?;
-                tracing::debug!(
-                    "🔀 REDIRECT: Created redirect pipe - read_end={:?}, write_end={:?}",
-                    pout,
-                    pin
-                );
-                ctx.outfile = pin.as_raw_fd(); // Keep alive for errfile
-                ctx.errfile = pin.into_raw_fd();
-                tracing::debug!(
-                    "🔀 REDIRECT: Set ctx.outfile={}, ctx.errfile={}",
-                    ctx.outfile,
-                    ctx.errfile
-                );
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::Input(_) => Ok(None),
-        }
-    } else {
-        if let Some(out) = ctx.captured_out {
-            ctx.outfile = out;
-        } else if ctx.infile != STDIN_FILENO {
-            ctx.outfile = stdout;
-        }
-        Ok(None)
+/// Output of the last command of a job that is not redirected.
+pub(crate) fn set_default_output(ctx: &mut Context, stdout: RawFd) {
+    if let Some(out) = ctx.captured_out {
+        ctx.outfile = out;
+    } else if ctx.infile != STDIN_FILENO {
+        ctx.outfile = stdout;
     }
 }
 
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 601f73a..0f5f1aa 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -1,8 +1,7 @@
-use anyhow::{Context as _, Result};
+use anyhow::Result;
 use libc::{STDERR_FILENO, STDIN_FILENO, STDOUT_FILENO};
 use nix::unistd::{Pid, close, getpgrp, setpgid};
-use std::fs::File;
-use std::os::unix::io::{AsRawFd, RawFd};
+use std::os::unix::io::RawFd;
 use tracing::{debug, error};
 
 use super::io::OutputMonitor;
@@ -30,7 +29,8 @@ pub struct Job {
     stderr: RawFd,
     pub foreground: bool,
     pub subshell: SubshellType,
-    pub redirect: Option<Redirect>,
+    /// Redirections of the command being parsed, until its process takes them
+    pub redirects: Vec<Redirect>,
     pub list_op: ListOp,
     pub job_id: usize,
     pub state: ProcessState,
@@ -77,7 +77,7 @@ impl Job {
             stderr: STDERR_FILENO,
             foreground: true,
             subshell: SubshellType::None,
-            redirect: None,
+            redirects: Vec::new(),
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -105,7 +105,7 @@ impl Job {
             stderr: STDERR_FILENO,
             foreground: true,
             subshell: SubshellType::None,
-            redirect: None,
+            redirects: Vec::new(),
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -124,6 +124,12 @@ impl Job {
         self.process.is_some()
     }
 
+    /// Add a parsed command, with the redirections parsed with it, to the pipeline
+    pub fn add_process(&mut self, mut process: JobProcess) {
+        process.set_redirects(std::mem::take(&mut self.redirects));
+        self.set_process(process);
+    }
+
     pub fn set_process(&mut self, process: JobProcess) {
         match self.process {
             Some(ref mut p) => p.link(process),
@@ -148,6 +154,16 @@ impl Job {
 
         ctx.foreground = self.foreground;
 
+        // The pipes and files of this job must not become the input and output of the next one.
+        let (infile, outfile, errfile) = (ctx.infile, ctx.outfile, ctx.errfile);
+        let result = self.run(ctx, shell).await;
+        ctx.infile = infile;
+        ctx.outfile = outfile;
+        ctx.errfile = errfile;
+        result
+    }
+
+    async fn run(&mut self, ctx: &mut Context, shell: &mut Shell) -> Result<ProcessState> {
         // 1. Setup PTY if needed
         let pty_slave_fd = self.setup_pty(ctx).await?;
         let _pty_raw_mode_guard = job_pty::ForegroundPtyRawModeGuard::new(self, ctx);
@@ -223,22 +239,18 @@ impl Job {
         process: &mut JobProcess,
         pty_slave: Option<RawFd>,
     ) -> Result<()> {
-        let previous_infile = ctx.infile;
-        let mut _input_file_guard: Option<File> = None;
-        let mut input_fd: Option<RawFd> = None;
-
-        if let Some(Redirect::Input(ref path)) = self.redirect {
-            let file = File::open(path)
-                .with_context(|| format!("failed to open input redirect file '{}'", path))?;
-            let fd = file.as_raw_fd();
-            ctx.infile = fd;
-            input_fd = Some(fd);
-            _input_file_guard = Some(file);
-        }
+        // The output of the previous command of the pipeline.
+        let piped_input = self.process.is_some().then_some(ctx.infile);
 
         // Use launch for automatic capture (modified internal logic)
-        let (pid, mut next_process) =
-            process.launch(ctx, shell, &self.redirect, self.stdout, pty_slave)?;
+        let launched = process.launch(ctx, shell, self.stdout, pty_slave);
+        if let Some(fd) = piped_input
+            && (launched.is_err() || process.get_io().0 != fd)
+            && let Err(e) = close(fd)
+        {
+            debug!("failed close unused pipe: {}", e);
+        }
+        let (pid, mut next_process) = launched?;
         if self.pid.is_none() {
             self.pid = Some(pid); // set process pid
         }
@@ -300,15 +312,12 @@ impl Job {
         }
 
         let (stdin, stdout, stderr) = process.get_io();
-        if stdin != self.stdin {
-            let should_close = match input_fd {
-                Some(fd) => stdin != fd,
-                None => pty_slave != Some(stdin), // Don't close if it's pty_slave
-            };
-            if should_close && let Err(e) = close(stdin) {
-                debug!("failed close stdin: {}", e);
-                // Don't error out here, just log (avoid crash if EBADF)
-            }
+        if stdin != self.stdin
+            && pty_slave != Some(stdin) // Don't close if it's pty_slave
+            && let Err(e) = close(stdin)
+        {
+            debug!("failed close stdin: {}", e);
+            // Don't error out here, just log (avoid crash if EBADF)
         }
         if stdout != self.stdout
             && pty_slave != Some(stdout)
@@ -327,16 +336,6 @@ impl Job {
         self.set_process(process.to_owned());
         self.show_job_status();
 
-        if let Some(ref redirect) = self.redirect {
-            redirect.process(ctx);
-        }
-
-        if let Some(fd) = input_fd
-            && ctx.infile == fd
-        {
-            ctx.infile = previous_infile;
-        }
-
         // run next pipeline process
         if let Some(Err(err)) = next_process
             .take()
diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index 829e972..736553b 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -1,16 +1,16 @@
 use anyhow::{Context as _, Result};
 use libc::{STDERR_FILENO, STDIN_FILENO, STDOUT_FILENO};
 use nix::sys::signal::Signal;
-use nix::unistd::{Pid, getpid, pipe};
+use nix::unistd::{Pid, close, getpid, pipe};
 use std::os::fd::IntoRawFd;
 use std::os::unix::io::RawFd;
 use tracing::debug;
 
 use super::builtin::BuiltinProcess;
 use super::fork::{fork_builtin_process, fork_process};
-use super::io::{create_pipe, handle_output_redirect};
+use super::io::{create_pipe, set_default_output};
 use super::process::Process;
-use super::redirect::Redirect;
+use super::redirect::{Redirect, apply_redirects};
 use super::signal::send_signal;
 use super::state::ProcessState;
 use crate::shell::Shell;
@@ -76,6 +76,21 @@ impl JobProcess {
         }
     }
 
+    /// The redirections of this command, in the order they were written.
+    pub fn redirects(&self) -> &[Redirect] {
+        match self {
+            JobProcess::Builtin(jprocess) => &jprocess.redirects,
+            JobProcess::Command(jprocess) => &jprocess.redirects,
+        }
+    }
+
+    pub fn set_redirects(&mut self, redirects: Vec<Redirect>) {
+        match self {
+            JobProcess::Builtin(jprocess) => jprocess.redirects = redirects,
+            JobProcess::Command(jprocess) => jprocess.redirects = redirects,
+        }
+    }
+
     pub fn set_io(&mut self, stdin: RawFd, stdout: RawFd, stderr: RawFd) {
         match self {
             JobProcess::Builtin(jprocess) => {
@@ -275,12 +290,12 @@ impl JobProcess {
         &mut self,
         ctx: &mut Context,
         shell: &mut Shell,
-        redirect: &Option<Redirect>,
         stdout: RawFd,
         pty_slave: Option<RawFd>,
     ) -> Result<(Pid, Option<Box<JobProcess>>)> {
         // has pipelines process ?
         let next_process = self.take_next();
+        let redirects = self.redirects().to_vec();
 
         let pipe_out = match next_process {
             Some(_) => {
@@ -290,7 +305,7 @@ impl JobProcess {
                 // Automatic capture for non-interactive mode (e.g. smart pipe tests)
                 // We don't do this in interactive mode to preserve TTY (colors, etc.)
                 if !ctx.interactive
-                    && redirect.is_none()
+                    && redirects.is_empty()
                     && pty_slave.is_none()
                     && ctx.captured_out.is_none()
                 {
@@ -304,11 +319,22 @@ impl JobProcess {
                     None
                 } else {
                     // Manual capture or redirect
-                    handle_output_redirect(ctx, redirect, stdout)?
+                    set_default_output(ctx, stdout);
+                    None
                 }
             }
         };
 
+        // A redirection belongs to this command only, so the next one gets this error output again.
+        let errfile = ctx.errfile;
+        if let Err(e) = apply_redirects(ctx, &redirects, pipe_out.is_some()) {
+            if let Some(pipe_out) = pipe_out {
+                let _ = close(pipe_out);
+                let _ = close(ctx.outfile);
+            }
+            return Err(e);
+        }
+
         if let Some(slave) = pty_slave {
             // PTY sets the "default" TTY fds.
             // Pipeline/Redirection/Capture overrides them.
@@ -368,6 +394,7 @@ impl JobProcess {
         };
 
         self.set_pid(Some(pid));
+        ctx.errfile = errfile;
 
         // set pipe inout
         if let Some(pipe_out) = pipe_out {
diff --git a/dsh/src/process/process.rs b/dsh/src/process/process.rs
index e36b940..4fc1ed7 100644
--- a/dsh/src/process/process.rs
+++ b/dsh/src/process/process.rs
@@ -12,6 +12,7 @@ use std::sync::Arc;
 use tracing::{debug, error};
 
 use super::job_process::JobProcess;
+use super::redirect::Redirect;
 use super::state::ProcessState;
 use super::wait::wait_pid_job;
 use crate::shell::SHELL_TERMINAL;
@@ -32,6 +33,7 @@ pub struct Process {
     pub(crate) status: Option<ExitStatus>,
     pub(crate) state: ProcessState, // completed, stopped,
     pub next: Option<Box<JobProcess>>,
+    pub(crate) redirects: Vec<Redirect>,
     pub stdin: RawFd,
     pub stdout: RawFd,
     pub stderr: RawFd,
@@ -64,6 +66,7 @@ impl Process {
             status: None,
             state: ProcessState::Running,
             next: None,
+            redirects: Vec::new(),
             stdin: STDIN_FILENO,
             stdout: STDOUT_FILENO,
             stderr: STDERR_FILENO,
diff --git a/dsh/src/process/redirect.rs b/dsh/src/process/redirect.rs
index 4d5da19..19da7c0 100644
--- a/dsh/src/process/redirect.rs
+++ b/dsh/src/process/redirect.rs
@@ -1,6 +1,8 @@
+use anyhow::{Context as _, Result};
 use dsh_types::Context;
-use std::os::unix::io::FromRawFd;
-use tokio::{fs, io};
+use nix::unistd::close;
+use std::fs::{File, OpenOptions};
+use std::os::unix::io::IntoRawFd;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[allow(dead_code)]
@@ -15,57 +17,64 @@ pub enum Redirect {
 }
 
 impl Redirect {
-    pub(crate) fn process(&self, ctx: &mut Context) {
+    fn open(&self) -> Result<File> {
         match self {
-            Redirect::StdoutOutput(out)
-            | Redirect::StderrOutput(out)
-            | Redirect::StdouterrOutput(out) => {
-                let infile = ctx.infile;
-                let file = out.to_string();
-                // spawn and io copy
-                tokio::spawn(async move {
-                    // copy io
-                    let mut reader = unsafe { fs::File::from_raw_fd(infile) };
-                    match fs::File::create(&file).await {
-                        Ok(mut writer) => {
-                            if let Err(e) = io::copy(&mut reader, &mut writer).await {
-                                tracing::error!("Failed to copy to file {}: {}", file, e);
-                            }
-                        }
-                        Err(e) => {
-                            tracing::error!("Failed to create file {}: {}", file, e);
-                        }
-                    }
-                });
-            }
+            Redirect::StdoutOutput(path)
+            | Redirect::StderrOutput(path)
+            | Redirect::StdouterrOutput(path) => File::create(path)
+                .with_context(|| format!("failed to open output redirect file '{}'", path)),
+            Redirect::StdoutAppend(path)
+            | Redirect::StderrAppend(path)
+            | Redirect::StdouterrAppend(path) => OpenOptions::new()
+                .create(true)
+                .append(true)
+                .open(path)
+                .with_context(|| format!("failed to open output redirect file '{}'", path)),
+            Redirect::Input(path) => File::open(path)
+                .with_context(|| format!("failed to open input redirect file '{}'", path)),
+        }
+    }
+}
+
+/// Open the redirections of one command in the order they were written and point the context at the
+/// files. Nothing is changed if one of them cannot be opened. `piped_output` is true when the context's
+/// output is the pipe made for the next command, which is closed when a redirection replaces it.
+pub(crate) fn apply_redirects(
+    ctx: &mut Context,
+    redirects: &[Redirect],
+    piped_output: bool,
+) -> Result<()> {
+    let mut infile: Option<File> = None;
+    let mut outfile: Option<File> = None;
+    let mut errfile: Option<File> = None;
 
-            Redirect::StdoutAppend(out)
-            | Redirect::StderrAppend(out)
-            | Redirect::StdouterrAppend(out) => {
-                let infile = ctx.infile;
-                let file = out.to_string();
-                // spawn and io copy
-                tokio::spawn(async move {
-                    // copy io
-                    let mut reader = unsafe { fs::File::from_raw_fd(infile) };
-                    match fs::OpenOptions::new()
-                        .write(true)
-                        .append(true)
-                        .open(&file)
-                        .await
-                    {
-                        Ok(mut writer) => {
-                            if let Err(e) = io::copy(&mut reader, &mut writer).await {
-                                tracing::error!("Failed to append to file {}: {}", file, e);
-                            }
-                        }
-                        Err(e) => {
-                            tracing::error!("Failed to open file {} for append: {}", file, e);
-                        }
-                    }
-                });
+    for redirect in redirects {
+        let file = redirect.open()?;
+        match redirect {
+            Redirect::Input(_) => infile = Some(file),
+            Redirect::StdoutOutput(_) | Redirect::StdoutAppend(_) => outfile = Some(file),
+            Redirect::StderrOutput(_) | Redirect::StderrAppend(_) => errfile = Some(file),
+            Redirect::StdouterrOutput(_) | Redirect::StdouterrAppend(_) => {
+                errfile = Some(
+                    file.try_clone()
+                        .context("failed to duplicate redirect file")?,
+                );
+                outfile = Some(file);
             }
-            Redirect::Input(_) => {}
         }
     }
+
+    if let Some(file) = infile {
+        ctx.infile = file.into_raw_fd();
+    }
+    if let Some(file) = outfile {
+        if piped_output {
+            let _ = close(ctx.outfile);
+        }
+        ctx.outfile = file.into_raw_fd();
+    }
+    if let Some(file) = errfile {
+        ctx.errfile = file.into_raw_fd();
+    }
+    Ok(())
 }
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index bf01d5f..fbea837 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -227,8 +227,8 @@ pub async fn eval_str(
         job.job_id = shell.get_job_id(); // set job id
 
         debug!(
-            "start job '{:?}' foreground:{:?} redirect:{:?} list_op:{:?} capture:{:?}",
-            job.cmd, job.foreground, job.redirect, job.list_op, job.capture_output,
+            "start job '{:?}' foreground:{:?} list_op:{:?} capture:{:?}",
+            job.cmd, job.foreground, job.list_op, job.capture_output,
         );
         let _title_guard = TitleGuard::new(ctx, &job);
 
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 3471a83..8b401e1 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -129,35 +129,37 @@ pub fn parse_argv(
                                     redirect_rule = Some(rule.as_rule());
                                 }
                             } else if let Rule::span = pair.as_rule() {
-                                let dest = pair.as_str();
+                                let Some(dest) = parser::get_string(pair) else {
+                                    continue;
+                                };
 
                                 let redirect = match redirect_rule {
                                     Some(Rule::stdout_redirect_direction_out) => {
-                                        Some(Redirect::StdoutOutput(dest.to_string()))
+                                        Some(Redirect::StdoutOutput(dest))
                                     }
                                     Some(Rule::stdout_redirect_direction_append) => {
-                                        Some(Redirect::StdoutAppend(dest.to_string()))
+                                        Some(Redirect::StdoutAppend(dest))
                                     }
 
                                     Some(Rule::stderr_redirect_direction_out) => {
-                                        Some(Redirect::StderrOutput(dest.to_string()))
+                                        Some(Redirect::StderrOutput(dest))
                                     }
                                     Some(Rule::stderr_redirect_direction_append) => {
-                                        Some(Redirect::StderrAppend(dest.to_string()))
+                                        Some(Redirect::StderrAppend(dest))
                                     }
 
                                     Some(Rule::stdouterr_redirect_direction_out) => {
-                                        Some(Redirect::StdouterrOutput(dest.to_string()))
+                                        Some(Redirect::StdouterrOutput(dest))
                                     }
                                     Some(Rule::stdouterr_redirect_direction_append) => {
-                                        Some(Redirect::StdouterrAppend(dest.to_string()))
+                                        Some(Redirect::StdouterrAppend(dest))
                                     }
                                     Some(Rule::stdin_redirect_direction_in) => {
-                                        Some(Redirect::Input(dest.to_string()))
+                                        Some(Redirect::Input(dest))
                                     }
                                     _ => None,
                                 };
-                                current_job.redirect = redirect;
+                                current_job.redirects.extend(redirect);
                             }
                         }
                         continue;
@@ -371,16 +373,16 @@ pub fn parse_command(
     let cmd = argv[0].as_str();
     if let Some(cmd_fn) = dsh_builtin::get_command(cmd) {
         let builtin = process::BuiltinProcess::new(cmd.to_string(), cmd_fn, argv);
-        current_job.set_process(JobProcess::Builtin(builtin));
+        current_job.add_process(JobProcess::Builtin(builtin));
     } else if shell.lisp_engine.borrow().is_export(cmd) {
         let cmd_fn = dsh_builtin::lisp::run;
         let builtin = process::BuiltinProcess::new(cmd.to_string(), cmd_fn, argv);
-        current_job.set_process(JobProcess::Builtin(builtin));
+        current_job.add_process(JobProcess::Builtin(builtin));
     } else {
         let cmd_lookup = shell.environment.read().lookup(cmd);
         if let Some(cmd) = cmd_lookup {
             let process = process::Process::new(cmd, argv);
-            current_job.set_process(JobProcess::Command(process));
+            current_job.add_process(JobProcess::Command(process));
             current_job.foreground = ctx.foreground;
         } else if dirs::is_dir(cmd) {
             if let Some(cmd_fn) = dsh_builtin::get_command("cd") {
@@ -389,7 +391,7 @@ pub fn parse_command(
                     cmd_fn,
                     vec!["cd".to_string(), cmd.to_string()],
                 );
-                current_job.set_process(JobProcess::Builtin(builtin));
+                current_job.add_process(JobProcess::Builtin(builtin));
             }
         } else {
             // Execute command-not-found hooks before showing error
-- 
2.43.0


From d0de9b3838a5ffdeefc20e4822bd38d4bbc55292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 24/42] fix: give the terminal back when a command or dialog
 fails

---
 dsh/src/ai_features/ui.rs              |  2 +-
 dsh/src/process/job_wait.rs            | 64 ++++++++++++++------------
 dsh/src/repl/confirmation.rs           | 20 +++++---
 dsh/src/repl/key_handlers/auxiliary.rs | 19 +++++---
 dsh/src/shell/eval.rs                  | 32 +++++++++++--
 5 files changed, 89 insertions(+), 48 deletions(-)

diff --git a/dsh/src/ai_features/ui.rs b/dsh/src/ai_features/ui.rs
index be1e600..3c4ea24 100644
--- a/dsh/src/ai_features/ui.rs
+++ b/dsh/src/ai_features/ui.rs
@@ -58,9 +58,9 @@ impl AiChatUi {
     pub fn run(&mut self) -> Result<UiOutcome> {
         let mut stdout = stdout();
         enable_raw_mode()?;
+        let _guard = TerminalGuard; // Ensures cleanup on ? or panic
         execute!(stdout, EnterAlternateScreen)?;
 
-        let _guard = TerminalGuard; // Ensures cleanup on ? or panic
         let backend = CrosstermBackend::new(stdout);
         let mut terminal = Terminal::new(backend)?;
 
diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index 9d65348..ece7401 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -12,6 +12,20 @@ use std::time::Duration;
 use tokio::time;
 use tracing::{debug, error};
 
+/// Take the terminal back for the shell.
+fn restore_shell_foreground(job: &Job) {
+    let shell_pgid = job.shell_pgid;
+    debug!("Restoring shell process group {}", shell_pgid);
+    if let Err(err) = tcsetpgrp(
+        unsafe { BorrowedFd::borrow_raw(SHELL_TERMINAL) },
+        shell_pgid,
+    ) {
+        debug!("tcsetpgrp shell_pgid failed: {}, continuing anyway", err);
+    } else {
+        debug!("Successfully restored shell process group {}", shell_pgid);
+    }
+}
+
 pub async fn put_in_foreground(job: &mut Job, no_hang: bool, cont: bool) -> Result<()> {
     debug!(
         "put_in_foreground: id: {} pgid {:?} no_hang: {} cont: {}",
@@ -42,8 +56,12 @@ pub async fn put_in_foreground(job: &mut Job, no_hang: bool, cont: bool) -> Resu
 
             if cont {
                 debug!("Sending SIGCONT to process group {}", pgid);
-                crate::process::signal::send_signal(pgid, Signal::SIGCONT)
-                    .context("failed send signal SIGCONT")?;
+                if let Err(err) = crate::process::signal::send_signal(pgid, Signal::SIGCONT)
+                    .context("failed send signal SIGCONT")
+                {
+                    restore_shell_foreground(job);
+                    return Err(err);
+                }
                 debug!("SIGCONT sent successfully");
             }
         } else {
@@ -54,22 +72,13 @@ pub async fn put_in_foreground(job: &mut Job, no_hang: bool, cont: bool) -> Resu
     }
 
     debug!("About to call wait_job with no_hang: {}", no_hang);
-    wait_job(job, no_hang).await?;
+    let waited = wait_job(job, no_hang).await;
     debug!("wait_job completed");
 
-    let shell_pgid = job.shell_pgid;
-    debug!("Restoring shell process group {}", shell_pgid);
-    if let Err(err) = tcsetpgrp(
-        unsafe { BorrowedFd::borrow_raw(SHELL_TERMINAL) },
-        shell_pgid,
-    ) {
-        debug!("tcsetpgrp shell_pgid failed: {}, continuing anyway", err);
-    } else {
-        debug!("Successfully restored shell process group {}", shell_pgid);
-    }
+    restore_shell_foreground(job);
 
-    debug!("put_in_foreground completed successfully");
-    Ok(())
+    debug!("put_in_foreground completed");
+    waited
 }
 
 pub fn put_in_foreground_sync(job: &mut Job, no_hang: bool, cont: bool) -> Result<()> {
@@ -102,8 +111,12 @@ pub fn put_in_foreground_sync(job: &mut Job, no_hang: bool, cont: bool) -> Resul
 
             if cont {
                 debug!("Sending SIGCONT to process group {}", pgid);
-                crate::process::signal::send_signal(pgid, Signal::SIGCONT)
-                    .context("failed send signal SIGCONT")?;
+                if let Err(err) = crate::process::signal::send_signal(pgid, Signal::SIGCONT)
+                    .context("failed send signal SIGCONT")
+                {
+                    restore_shell_foreground(job);
+                    return Err(err);
+                }
                 debug!("SIGCONT sent successfully");
             }
         } else {
@@ -114,22 +127,13 @@ pub fn put_in_foreground_sync(job: &mut Job, no_hang: bool, cont: bool) -> Resul
     }
 
     debug!("About to call wait_job_sync with no_hang: {}", no_hang);
-    wait_job_sync(job, no_hang)?;
+    let waited = wait_job_sync(job, no_hang);
     debug!("wait_job_sync completed");
 
-    let shell_pgid = job.shell_pgid;
-    debug!("Restoring shell process group {}", shell_pgid);
-    if let Err(err) = tcsetpgrp(
-        unsafe { BorrowedFd::borrow_raw(SHELL_TERMINAL) },
-        shell_pgid,
-    ) {
-        debug!("tcsetpgrp shell_pgid failed: {}, continuing anyway", err);
-    } else {
-        debug!("Successfully restored shell process group {}", shell_pgid);
-    }
+    restore_shell_foreground(job);
 
-    debug!("put_in_foreground_sync completed successfully");
-    Ok(())
+    debug!("put_in_foreground_sync completed");
+    waited
 }
 
 pub async fn put_in_background(job: &mut Job) -> Result<()> {
diff --git a/dsh/src/repl/confirmation.rs b/dsh/src/repl/confirmation.rs
index b3a5711..4ae371f 100644
--- a/dsh/src/repl/confirmation.rs
+++ b/dsh/src/repl/confirmation.rs
@@ -18,8 +18,6 @@ pub enum ConfirmationAction {
 
 /// Synchronous confirmation helper that handles raw mode switching
 pub fn confirm_action(message: &str) -> Result<ConfirmationAction> {
-    let mut stdout = stdout();
-
     // Check if raw mode is already enabled to restore state later
     // Note: crossterm's is_raw_mode_enabled isn't always reliable across processes but works for this process.
     let was_raw = is_raw_mode_enabled().unwrap_or(false);
@@ -27,6 +25,19 @@ pub fn confirm_action(message: &str) -> Result<ConfirmationAction> {
         enable_raw_mode()?;
     }
 
+    let answer = read_confirmation(message);
+
+    // Restore raw mode state
+    if !was_raw {
+        disable_raw_mode()?;
+    }
+
+    answer
+}
+
+fn read_confirmation(message: &str) -> Result<ConfirmationAction> {
+    let mut stdout = stdout();
+
     // Print message
     queue!(
         stdout,
@@ -75,11 +86,6 @@ pub fn confirm_action(message: &str) -> Result<ConfirmationAction> {
     }
     stdout.flush()?;
 
-    // Restore raw mode state
-    if !was_raw {
-        disable_raw_mode()?;
-    }
-
     Ok(action)
 }
 
diff --git a/dsh/src/repl/key_handlers/auxiliary.rs b/dsh/src/repl/key_handlers/auxiliary.rs
index 3f00a45..2d23062 100644
--- a/dsh/src/repl/key_handlers/auxiliary.rs
+++ b/dsh/src/repl/key_handlers/auxiliary.rs
@@ -18,15 +18,17 @@ pub(crate) async fn handle_open_command_palette(repl: &mut Repl<'_>) -> Result<R
     // Disable raw mode so Skim can handle terminal state correctly
     disable_raw_mode().ok();
 
-    if let Some(replacement) = CommandPalette::run(repl.shell, repl.input.as_str()).await? {
+    let selected = CommandPalette::run(repl.shell, repl.input.as_str()).await;
+
+    // Re-enable raw mode for the shell
+    enable_raw_mode().ok();
+
+    if let Some(replacement) = selected? {
         repl.input.reset(replacement);
         repl.input.completion = None;
         repl.input.color_ranges = None;
     }
 
-    // Re-enable raw mode for the shell
-    enable_raw_mode().ok();
-
     let mut renderer = TerminalRenderer::new();
     repl.print_prompt(&mut renderer);
     renderer.flush().ok();
@@ -95,7 +97,7 @@ pub(crate) async fn handle_macro_record(repl: &mut Repl<'_>) -> Result<()> {
     let _ = disable_raw_mode();
 
     // Run Skim in a blocking task to avoid runtime conflict
-    let commands = tokio::task::spawn_blocking(move || -> anyhow::Result<Vec<String>> {
+    let selection = tokio::task::spawn_blocking(move || -> anyhow::Result<Vec<String>> {
         let options = SkimOptionsBuilder::default()
             .multi(true)
             .bind(vec!["Enter:accept".to_string()])
@@ -119,11 +121,13 @@ pub(crate) async fn handle_macro_record(repl: &mut Repl<'_>) -> Result<()> {
             .map(|item| item.output().to_string())
             .collect())
     })
-    .await??;
+    .await;
 
     // Re-enable raw mode
     let _ = enable_raw_mode();
 
+    let commands = selection??;
+
     if commands.is_empty() {
         return Ok(());
     }
@@ -135,8 +139,9 @@ pub(crate) async fn handle_macro_record(repl: &mut Repl<'_>) -> Result<()> {
 
     let _ = disable_raw_mode();
     let mut name = String::new();
-    std::io::stdin().read_line(&mut name)?;
+    let read = std::io::stdin().read_line(&mut name);
     let _ = enable_raw_mode();
+    read?;
 
     let name = name.trim();
     if name.is_empty() {
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index fbea837..6a79ca3 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -234,7 +234,15 @@ pub async fn eval_str(
 
         // Handle capture mode with |>
         if job.capture_output {
-            let (exit, stdout, stderr) = execute_with_capture(shell, ctx, &mut job).await?;
+            let (exit, stdout, stderr) = match execute_with_capture(shell, ctx, &mut job).await {
+                Ok(captured) => captured,
+                Err(err) => {
+                    if ctx.interactive {
+                        enable_raw_mode().ok();
+                    }
+                    return Err(err);
+                }
+            };
             last_exit_code = exit;
 
             // Save to output history
@@ -279,6 +287,9 @@ pub async fn eval_str(
 
             if !job.has_process() {
                 debug!("Struct pipe: no executable process, skipping");
+                if ctx.interactive {
+                    enable_raw_mode().ok();
+                }
                 gate_op = next_gate_op;
                 continue;
             }
@@ -291,7 +302,15 @@ pub async fn eval_str(
 
             // Execute command through regular job launch path and capture output.
             let (exit_code, output, stderr_output) =
-                execute_with_capture(shell, ctx, &mut job).await?;
+                match execute_with_capture(shell, ctx, &mut job).await {
+                    Ok(captured) => captured,
+                    Err(err) => {
+                        if ctx.interactive {
+                            enable_raw_mode().ok();
+                        }
+                        return Err(err);
+                    }
+                };
             last_exit_code = exit_code;
 
             // Output stderr to terminal (struct_pipe only processes stdout)
@@ -527,7 +546,14 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
         let pid = task::block_in_place(|| {
             // Avoid nested-runtime panic by driving only this future directly.
             futures::executor::block_on(spawn_subshell(shell, ctx, &mut job))
-        })?;
+        });
+        let pid = match pid {
+            Ok(pid) => pid,
+            Err(err) => {
+                enable_raw_mode().ok();
+                return Err(err);
+            }
+        };
         debug!("spawned subshell cmd:{} pid: {:?}", job.cmd, pid);
         let res = wait_pid_job(pid, false);
         debug!("wait subshell exit:{:?}", res);
-- 
2.43.0


From 62d7e69afd857eb5ee73f2ef5a4d7dfd57c327e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 25/42] fix: leave raw mode as it was after a command
 substitution

---
 dsh/src/shell/eval.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 6a79ca3..9d102ea 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -6,7 +6,7 @@ use crate::shell::{
 };
 use crate::terminal::title;
 use anyhow::{Context as _, Result, anyhow, bail};
-use crossterm::terminal::{disable_raw_mode, enable_raw_mode};
+use crossterm::terminal::{disable_raw_mode, enable_raw_mode, is_raw_mode_enabled};
 use dsh_builtin::execute_chat_message;
 use dsh_types::{Context, ExitStatus};
 use nix::sys::termios::{LocalFlags, SetArg, tcgetattr, tcsetattr};
@@ -541,6 +541,7 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
     // Nested commands run while the line is still being parsed, before the line itself is checked.
     authorize_subshell(shell, &jobs)?;
 
+    let was_raw = is_raw_mode_enabled().unwrap_or(false);
     for mut job in jobs {
         disable_raw_mode().ok();
         let pid = task::block_in_place(|| {
@@ -550,14 +551,18 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
         let pid = match pid {
             Ok(pid) => pid,
             Err(err) => {
-                enable_raw_mode().ok();
+                if was_raw {
+                    enable_raw_mode().ok();
+                }
                 return Err(err);
             }
         };
         debug!("spawned subshell cmd:{} pid: {:?}", job.cmd, pid);
         let res = wait_pid_job(pid, false);
         debug!("wait subshell exit:{:?}", res);
-        enable_raw_mode().ok();
+        if was_raw {
+            enable_raw_mode().ok();
+        }
     }
 
     Ok(())
-- 
2.43.0


From 8d9beadbc7cf8ade2c6066b4196a9004933046d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 26/42] fix: leave the alternate screen of procs even when raw
 mode cannot be switched off

---
 dsh-builtin/src/procs.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsh-builtin/src/procs.rs b/dsh-builtin/src/procs.rs
index c0b8401..131d325 100644
--- a/dsh-builtin/src/procs.rs
+++ b/dsh-builtin/src/procs.rs
@@ -190,9 +190,13 @@ pub fn command(_ctx: &Context, _argv: Vec<String>, _proxy: &mut dyn ShellProxy)
 }
 
 fn restore_terminal(terminal: &mut Terminal<CrosstermBackend<std::io::Stdout>>) -> Result<()> {
-    disable_raw_mode()?;
-    execute!(terminal.backend_mut(), LeaveAlternateScreen)?;
-    terminal.show_cursor()?;
+    // Every step is attempted: a failing one must not leave the others undone
+    let raw = disable_raw_mode();
+    let screen = execute!(terminal.backend_mut(), LeaveAlternateScreen);
+    let cursor = terminal.show_cursor();
+    raw?;
+    screen?;
+    cursor?;
     Ok(())
 }
 
-- 
2.43.0


From bfb98aa9fd2fa8e69549b159580bab7bc547eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 27/42] fix: run every command of the user in the shell's
 environment

---
 dsh/src/lisp/builtin.rs    |  8 +++-
 dsh/src/process/process.rs | 90 +++-----------------------------------
 dsh/src/proxy/mod.rs       |  3 ++
 dsh/src/repl/mod.rs        |  8 +++-
 4 files changed, 24 insertions(+), 85 deletions(-)

diff --git a/dsh/src/lisp/builtin.rs b/dsh/src/lisp/builtin.rs
index 6c1dac2..511c07d 100644
--- a/dsh/src/lisp/builtin.rs
+++ b/dsh/src/lisp/builtin.rs
@@ -235,7 +235,13 @@ pub fn command(env: Rc<RefCell<Env>>, args: Vec<Value>) -> Result<Value, Runtime
         }
     }
 
-    match Command::new(cmd).args(cmd_args).output() {
+    let child_env = env.borrow().shell_env.read().child_process_env();
+    match Command::new(cmd)
+        .env_clear()
+        .envs(&child_env)
+        .args(cmd_args)
+        .output()
+    {
         Ok(output) => {
             let stdout = String::from_utf8_lossy(&output.stdout)
                 .trim_end()
diff --git a/dsh/src/process/process.rs b/dsh/src/process/process.rs
index 4fc1ed7..cbed536 100644
--- a/dsh/src/process/process.rs
+++ b/dsh/src/process/process.rs
@@ -140,89 +140,13 @@ impl Process {
             .collect();
         let argv = argv?;
 
-        // Build environment for child process without intermediate HashMap cloning
-        let env_guard = environment.read();
-
-        // Calculate minimal capacity to avoid re-allocations
-        // (system vars + exported vars, though some might overlap)
-        let estimated_cap = env_guard.system_env_vars.len() + env_guard.exported_vars.len();
-        let mut envp: Vec<CString> = Vec::with_capacity(estimated_cap + 2); // +2 for TERM, LS_COLORS fallback
-
-        // 1. Add system vars that are NOT overridden by exported vars
-        for (key, val) in &env_guard.system_env_vars {
-            if !env_guard.exported_vars.contains(key) {
-                // Special handling for TERM: if empty, skip so we can default it later
-                if key == "TERM" && val.is_empty() {
-                    continue;
-                }
-                if let Ok(c_str) = CString::new(format!("{}={}", key, val)) {
-                    envp.push(c_str);
-                }
-            }
-        }
-
-        // Environment map for quick lookups for special vars like TERM
-        // We only populate this lightly or check directly if possible.
-        // Actually, we need to check if TERM/LS_COLORS are set in the FINAL environment.
-        // We can track this with booleans.
-        let mut term_set = false;
-        let mut ls_colors_set = false;
-
-        // 2. Add exported vars (overriding system vars)
-        for key in &env_guard.exported_vars {
-            if let Some(value) = env_guard.variables.get(key) {
-                if key == "TERM" {
-                    if value.is_empty() {
-                        continue;
-                    }
-                    term_set = true;
-                }
-                if key == "LS_COLORS" {
-                    ls_colors_set = true;
-                }
-
-                if let Ok(c_str) = CString::new(format!("{}={}", key, value)) {
-                    envp.push(c_str);
-                }
-            }
-        }
-
-        // Check whether TERM was already copied from system vars or exported shell vars.
-        if !term_set {
-            if env_guard.exported_vars.contains("TERM") {
-                // Exported but missing/empty TERM is treated as unset and falls back below.
-            } else {
-                if let Some(val) = env_guard.system_env_vars.get("TERM")
-                    && !val.is_empty()
-                {
-                    term_set = true;
-                }
-            }
-        }
-
-        if !ls_colors_set
-            && (env_guard.exported_vars.contains("LS_COLORS")
-                || env_guard.system_env_vars.contains_key("LS_COLORS"))
-        {
-            ls_colors_set = true;
-        }
-
-        // Ensure TERM is set, falling back to xterm if missing or empty
-        if !term_set {
-            debug!("TERM environment variable missing, defaulting to xterm-256color");
-            match CString::new("TERM=xterm-256color") {
-                Ok(term_default) => envp.push(term_default),
-                Err(err) => {
-                    debug!("failed to construct default TERM environment variable: {err}");
-                }
-            }
-        }
-
-        if ls_colors_set {
-            debug!("LS_COLORS is set");
-        } else {
-            debug!("LS_COLORS is NOT set");
-        }
+        // The same environment every other command of the user gets
+        let envp: Vec<CString> = environment
+            .read()
+            .child_process_env()
+            .iter()
+            .filter_map(|(key, value)| CString::new(format!("{}={}", key, value)).ok())
+            .collect();
 
         Ok(PreparedExecution { cmd, argv, envp })
     }
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index ea01153..01383c7 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -364,7 +364,10 @@ impl ShellProxy for Shell {
         debug!("Capturing command: '{}'", cmd);
 
         // Use sh -c to execute the command
+        let child_env = self.environment.read().child_process_env();
         let output = Command::new("sh")
+            .env_clear()
+            .envs(&child_env)
             .arg("-c")
             .arg(cmd)
             .stdin(Stdio::inherit())
diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index 67dbe95..b8ae2c0 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -1271,7 +1271,13 @@ impl<'a> Repl<'a> {
         renderer.flush().ok();
 
         // Execute the command and capture output
-        let output = Command::new("sh").arg("-c").arg(&command).output();
+        let child_env = self.shell.environment.read().child_process_env();
+        let output = Command::new("sh")
+            .env_clear()
+            .envs(&child_env)
+            .arg("-c")
+            .arg(&command)
+            .output();
 
         let (stdout, stderr, exit_code) = match output {
             Ok(out) => {
-- 
2.43.0


From 7bea7bfe521ebc68b0fcf9c558d9d191daa486de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 28/42] fix: apply the safety policy to the command of an AI
 pipe

---
 dsh/src/repl/mod.rs   | 14 ++++++++++++++
 dsh/src/shell/eval.rs |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index b8ae2c0..dcdc590 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -9,6 +9,7 @@ use crate::history::FrecencyHistory;
 use crate::input::{ColorType, Input, InputConfig, display_width};
 use crate::lisp::{Symbol, Value};
 use crate::parser::Rule;
+use crate::process::Job;
 use crate::prompt::Prompt;
 use crate::repl::state::{DoublePressState, ReplControlFlow, ShellEvent};
 use crate::repl::suggestion_manager::SuggestionManager;
@@ -1266,6 +1267,19 @@ impl<'a> Repl<'a> {
     async fn run_ai_pipe(&mut self, command: String, query: String) -> Result<()> {
         use std::process::Command;
 
+        // The command is left to sh: the safety policy judges each of its parts
+        let jobs: Vec<Job> = command
+            .split(['|', ';', '&', '(', ')', '`', '\n'])
+            .map(str::trim)
+            .filter(|part| !part.is_empty())
+            .map(|part| Job::new(part.to_string(), self.shell.pgid))
+            .collect();
+        if let Err(err) = crate::shell::eval::authorize_subshell(self.shell, &jobs) {
+            self.shell.print_error(format!("\r\n{err}\r\n"));
+            self.last_status = 1;
+            return Ok(());
+        }
+
         let mut renderer = TerminalRenderer::new();
         queue!(renderer, Print("\r\n🔄 Running command...\r\n")).ok();
         renderer.flush().ok();
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 9d102ea..4e61430 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -569,7 +569,7 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
 }
 
 /// Apply the safety policy to the jobs of a substitution or subshell.
-fn authorize_subshell(shell: &Shell, jobs: &[Job]) -> Result<()> {
+pub(crate) fn authorize_subshell(shell: &Shell, jobs: &[Job]) -> Result<()> {
     use crate::repl::confirmation::{ConfirmationAction, confirm_action};
     use crate::safety::SafetyResult;
 
-- 
2.43.0


From 8667a81fbcfcb82a22cda62b0eeb069a9d25c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 29/42] fix: report missing arguments of read, lisp, lisp-run,
 history and add_path instead of panicking

---
 dsh-builtin/src/add_path.rs      | 9 +++++++--
 dsh/src/proxy/builtin/history.rs | 2 +-
 dsh/src/proxy/builtin/lisp.rs    | 8 +++++++-
 dsh/src/proxy/builtin/var.rs     | 5 ++++-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dsh-builtin/src/add_path.rs b/dsh-builtin/src/add_path.rs
index 718c8ef..c1957b5 100644
--- a/dsh-builtin/src/add_path.rs
+++ b/dsh-builtin/src/add_path.rs
@@ -9,9 +9,14 @@ pub fn description() -> &'static str {
 /// Built-in add_path command implementation
 /// Adds a directory to the beginning of the PATH environment variable
 /// Supports tilde expansion for home directory references
-pub fn command(_ctx: &Context, args: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+pub fn command(ctx: &Context, args: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+    let Some(dir) = args.get(1) else {
+        ctx.write_stderr("add_path: missing path argument").ok();
+        return ExitStatus::ExitedWith(1);
+    };
+
     // Expand tilde (~) to home directory path if present
-    let path = shellexpand::tilde(&args[1]);
+    let path = shellexpand::tilde(dir);
 
     // Insert the path at the beginning of PATH (index 0 = highest priority)
     proxy.insert_path(0, &path);
diff --git a/dsh/src/proxy/builtin/history.rs b/dsh/src/proxy/builtin/history.rs
index 9f51452..28dee40 100644
--- a/dsh/src/proxy/builtin/history.rs
+++ b/dsh/src/proxy/builtin/history.rs
@@ -12,7 +12,7 @@ use dsh_types::Context;
 pub fn execute(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result<()> {
     if let Some(ref mut history) = shell.cmd_history {
         let mut history = history.lock();
-        let options = HistoryOptions::parse(&argv[1..]);
+        let options = HistoryOptions::parse(argv.get(1..).unwrap_or_default());
 
         if options.help {
             print_help(ctx)?;
diff --git a/dsh/src/proxy/builtin/lisp.rs b/dsh/src/proxy/builtin/lisp.rs
index 5c91683..8466888 100644
--- a/dsh/src/proxy/builtin/lisp.rs
+++ b/dsh/src/proxy/builtin/lisp.rs
@@ -9,7 +9,10 @@ use tracing::debug;
 ///
 /// Evaluates a Lisp expression directly.
 pub fn execute_lisp(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result<()> {
-    match shell.lisp_engine.borrow().run(argv[1].as_str()) {
+    let Some(expression) = argv.get(1) else {
+        anyhow::bail!("missing expression");
+    };
+    match shell.lisp_engine.borrow().run(expression.as_str()) {
         Ok(val) => {
             debug!("{}", val);
         }
@@ -25,6 +28,9 @@ pub fn execute_lisp(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Resu
 /// Runs a Lisp function with arguments.
 pub fn execute_lisp_run(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result<()> {
     let mut argv = argv;
+    if argv.is_empty() {
+        anyhow::bail!("missing function name");
+    }
     let cmd = argv.remove(0);
     match shell.lisp_engine.borrow().run_func(cmd.as_str(), argv) {
         Ok(val) => {
diff --git a/dsh/src/proxy/builtin/var.rs b/dsh/src/proxy/builtin/var.rs
index 2bbb4e2..28ff8a1 100644
--- a/dsh/src/proxy/builtin/var.rs
+++ b/dsh/src/proxy/builtin/var.rs
@@ -37,13 +37,16 @@ pub fn execute_var(shell: &mut Shell, ctx: &Context, _argv: Vec<String>) -> Resu
 ///
 /// Reads input from stdin and assigns it to a variable.
 pub fn execute_read(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result<()> {
+    let Some(name) = argv.get(1) else {
+        anyhow::bail!("missing variable name");
+    };
     let mut stdin = Vec::new();
     unsafe {
         File::from_raw_fd(ctx.infile)
             .read_to_end(&mut stdin)
             .context("read: failed to read input")?;
     };
-    let key = format!("${}", argv[1]);
+    let key = format!("${}", name);
     let output = match std::str::from_utf8(&stdin) {
         Ok(s) => s.trim_end_matches('\n').to_owned(),
         Err(err) => {
-- 
2.43.0


From c6d707214b4a396f55cb1b5608a22d87d89956e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 30/42] fix: report a Lisp division by zero instead of
 panicking

---
 dsh/src/lisp/model/value.rs |  4 +++-
 dsh/src/lisp/stdlib/math.rs | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dsh/src/lisp/model/value.rs b/dsh/src/lisp/model/value.rs
index 28bd413..3224848 100644
--- a/dsh/src/lisp/model/value.rs
+++ b/dsh/src/lisp/model/value.rs
@@ -484,7 +484,9 @@ impl Div<&Value> for &Value {
 
     fn div(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this / other)),
+            (Value::Int(this), Value::Int(other)) => {
+                this.checked_div(*other).map(Value::from).ok_or(())
+            }
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this / other)),
 
             (Value::Int(this), Value::Float(other)) => {
diff --git a/dsh/src/lisp/stdlib/math.rs b/dsh/src/lisp/stdlib/math.rs
index c2764a7..db2282d 100644
--- a/dsh/src/lisp/stdlib/math.rs
+++ b/dsh/src/lisp/stdlib/math.rs
@@ -79,7 +79,9 @@ pub fn register(env: &mut Env) {
             let b = require_arg("/", &args, 1)?;
 
             (a / b).map_err(|_| RuntimeError {
-                msg: String::from("Function \"/\" requires arguments to be numbers"),
+                msg: String::from(
+                    "Function \"/\" requires arguments to be numbers and a divisor other than zero",
+                ),
             })
         }),
     );
@@ -94,7 +96,12 @@ pub fn register(env: &mut Env) {
                 TryInto::<IntType>::try_into(a),
                 TryInto::<IntType>::try_into(b),
             ) {
-                return Ok(Value::Int(a / b));
+                return a
+                    .checked_div(b)
+                    .map(Value::Int)
+                    .ok_or_else(|| RuntimeError {
+                        msg: String::from("Function \"truncate\" cannot divide by zero"),
+                    });
             }
 
             Err(RuntimeError {
-- 
2.43.0


From 1a3baa72b07876d88e54382e6301283d7a11e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 31/42] fix: skip lines of .env and .envrc that are no
 assignments instead of panicking

---
 dsh/src/direnv.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dsh/src/direnv.rs b/dsh/src/direnv.rs
index cc2f94b..4c8994e 100644
--- a/dsh/src/direnv.rs
+++ b/dsh/src/direnv.rs
@@ -119,9 +119,11 @@ fn read_env_config_file(file: &str) -> Result<Vec<Entry>> {
     let mut ret: Vec<Entry> = Vec::new();
     let contents = fs::read_to_string(file)?;
     for line in contents.lines() {
-        let parts: Vec<&str> = line.splitn(2, '=').collect();
-        let key = parts[0].trim().to_uppercase().to_string();
-        let value = parts[1].trim().to_string();
+        let Some((key, value)) = line.split_once('=') else {
+            continue;
+        };
+        let key = key.trim().to_uppercase().to_string();
+        let value = value.trim().to_string();
         ret.push(Entry::Env(EnvEntry { key, value }));
     }
     Ok(ret)
@@ -133,9 +135,11 @@ fn read_envrc_config_file(file: &str) -> Result<Vec<Entry>> {
     let current_path = std::env::var("PATH")?;
 
     for line in contents.lines() {
-        let parts: Vec<&str> = line.splitn(2, ' ').collect();
-        let cmd = parts[0].trim().to_uppercase().to_string();
-        let value = parts[1].trim().to_string();
+        let Some((cmd, value)) = line.split_once(' ') else {
+            continue;
+        };
+        let cmd = cmd.trim().to_uppercase().to_string();
+        let value = value.trim().to_string();
 
         match cmd.as_str() {
             "PATH_ADD" => ret.push(Entry::PathAdd(PathAddEntry {
@@ -143,9 +147,11 @@ fn read_envrc_config_file(file: &str) -> Result<Vec<Entry>> {
                 old: current_path.clone(),
             })),
             "EXPORT" => {
-                let parts: Vec<&str> = value.splitn(2, '=').collect();
-                let key = parts[0].trim().to_uppercase().to_string();
-                let mut value = parts[1].trim().to_string();
+                let Some((key, value)) = value.split_once('=') else {
+                    continue;
+                };
+                let key = key.trim().to_uppercase().to_string();
+                let mut value = value.trim().to_string();
 
                 // Strip quotes if present
                 if ((value.starts_with('"') && value.ends_with('"'))
-- 
2.43.0


From b0d4a041ce433f2789ef5624c5af349e6dc104e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 32/42] fix: do not divide by the width of a terminal of no
 columns

---
 dsh/src/repl/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/repl/render.rs b/dsh/src/repl/render.rs
index cb18938..aef93cd 100644
--- a/dsh/src/repl/render.rs
+++ b/dsh/src/repl/render.rs
@@ -460,7 +460,7 @@ pub(crate) fn render_transient_prompt_to<W: Write>(
 ) -> Result<()> {
     // Calculate how many lines the prompt+input occupies
     // Note: Preprompt is always one extra line above
-    let input_lines = (prompt_width + input_width) / (cols as usize);
+    let input_lines = (prompt_width + input_width) / (cols as usize).max(1);
     let total_lines = 1 + input_lines; // +1 for preprompt
 
     queue!(
-- 
2.43.0


From c1a09e1517f217f556857e893c10a869421836ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 33/42] fix: run Lisp completion functions without holding the
 environment lock

A completion function that changes the environment (set a variable, an
alias, ...) waited forever for the read lock its caller held.
---
 dsh/src/completion/selection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsh/src/completion/selection.rs b/dsh/src/completion/selection.rs
index 293f6f8..81ca89e 100644
--- a/dsh/src/completion/selection.rs
+++ b/dsh/src/completion/selection.rs
@@ -205,7 +205,9 @@ fn completion_from_lisp_with_prompt(
     let environment = Arc::clone(&lisp_engine.borrow().shell_env);
 
     // 1. completion from autocomplete
-    for compl in environment.read().autocompletion.iter() {
+    // The list is copied: the functions run below may change the environment
+    let completions = environment.read().autocompletion.clone();
+    for compl in completions.iter() {
         let cmd_str = compl.target.to_string();
         // debug!("match cmd:'{}' in:'{}'", cmd_str, replace_space(input));
         if replace_space(input.as_str()).starts_with(cmd_str.as_str()) {
-- 
2.43.0


From 4395dc4a1d164bfbaec49dd1ffd051d0a15494e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 34/42] fix: do not borrow the Lisp environment twice when a
 hook variable is missing

---
 dsh/src/lisp/default_environment.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dsh/src/lisp/default_environment.rs b/dsh/src/lisp/default_environment.rs
index d94c5b6..f1c74c4 100644
--- a/dsh/src/lisp/default_environment.rs
+++ b/dsh/src/lisp/default_environment.rs
@@ -277,15 +277,12 @@ pub fn default_env(environment: Arc<RwLock<Environment>>) -> Env {
             let new_list_value = Value::List(new_list);
 
             // Set the new value in the environment using set to update existing binding
-            match env
+            let updated = env
                 .borrow_mut()
-                .set(hook_var_name.clone(), new_list_value.clone())
-            {
-                Ok(_) => {}
-                Err(_) => {
-                    // If set fails (variable not found), define it in current env
-                    env.borrow_mut().define(hook_var_name, new_list_value);
-                }
+                .set(hook_var_name.clone(), new_list_value.clone());
+            if updated.is_err() {
+                // If set fails (variable not found), define it in current env
+                env.borrow_mut().define(hook_var_name, new_list_value);
             }
 
             Ok(Value::NIL)
-- 
2.43.0


From a2261077aaae2280db9f5ccc9363b058c6afbab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 35/42] fix: escape file names in the directory pages of serve

A file name with markup in it was put into the page as it is and ran as
script in the visitor's browser.
---
 dsh-builtin/src/serve/handlers.rs | 8 ++++++--
 dsh-builtin/src/serve/scanner.rs  | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsh-builtin/src/serve/handlers.rs b/dsh-builtin/src/serve/handlers.rs
index 90f3153..0e57d6f 100644
--- a/dsh-builtin/src/serve/handlers.rs
+++ b/dsh-builtin/src/serve/handlers.rs
@@ -1,3 +1,4 @@
+use super::scanner::html_escape;
 use axum::body::Body;
 use axum::http::header::ToStrError;
 use axum::http::{HeaderMap, StatusCode, Uri, header};
@@ -607,7 +608,10 @@ async fn serve_directory(dir_path: &Path) -> Response<Body> {
             html.push_str(".file { color: #666; }");
             html.push_str("</style></head><body>");
 
-            html.push_str(&format!("<h1>🐕 Directory: {}</h1>", dir_path.display()));
+            html.push_str(&format!(
+                "<h1>🐕 Directory: {}</h1>",
+                html_escape(&dir_path.display().to_string())
+            ));
             html.push_str("<ul>");
 
             // Add parent directory link if not root
@@ -634,7 +638,7 @@ async fn serve_directory(dir_path: &Path) -> Response<Body> {
             // Add entries to HTML
             for entry in entries {
                 let file_name = entry.file_name();
-                let file_name_str = file_name.to_string_lossy();
+                let file_name_str = html_escape(&file_name.to_string_lossy());
                 let path = entry.path();
 
                 if path.is_dir() {
diff --git a/dsh-builtin/src/serve/scanner.rs b/dsh-builtin/src/serve/scanner.rs
index 69570e0..68339b3 100644
--- a/dsh-builtin/src/serve/scanner.rs
+++ b/dsh-builtin/src/serve/scanner.rs
@@ -519,7 +519,7 @@ impl DirectoryListingGenerator {
 }
 
 /// Escape HTML special characters
-fn html_escape(input: &str) -> String {
+pub(super) fn html_escape(input: &str) -> String {
     input
         .replace('&', "&amp;")
         .replace('<', "&lt;")
-- 
2.43.0


From 7e3b07210da60dafe1ad215e715263aeab0b8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:13 +0000
Subject: [PATCH 36/42] fix: do not follow an index.html link out of the
 directory serve shows

---
 dsh-builtin/src/serve/handlers.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsh-builtin/src/serve/handlers.rs b/dsh-builtin/src/serve/handlers.rs
index 0e57d6f..d76eda6 100644
--- a/dsh-builtin/src/serve/handlers.rs
+++ b/dsh-builtin/src/serve/handlers.rs
@@ -482,8 +482,7 @@ pub async fn serve_root_handler(serve_dir: PathBuf, serve_index: bool) -> Respon
 
     // Try to serve index.html if serve_index is enabled
     if serve_index {
-        let index_path = serve_dir.join("index.html");
-        if index_path.exists() && index_path.is_file() {
+        if let Some(index_path) = find_index_file(&serve_dir, &serve_dir) {
             return serve_file(&index_path).await;
         }
     }
@@ -533,8 +532,7 @@ pub async fn serve_file_handler(
             } else if canonical_path.is_dir() {
                 // Try to serve index.html if serve_index is enabled
                 if serve_index {
-                    let index_path = canonical_path.join("index.html");
-                    if index_path.exists() && index_path.is_file() {
+                    if let Some(index_path) = find_index_file(&canonical_path, &serve_dir) {
                         let mut response = serve_file(&index_path).await;
                         if enable_cors {
                             add_cors_headers(response.headers_mut());
@@ -557,6 +555,13 @@ pub async fn serve_file_handler(
     }
 }
 
+/// Find the index file of a directory; a link that leads out of the served directory is none
+fn find_index_file(dir_path: &Path, serve_dir: &Path) -> Option<PathBuf> {
+    let index_path = dir_path.join("index.html").canonicalize().ok()?;
+    let canonical_serve_dir = serve_dir.canonicalize().ok()?;
+    (index_path.starts_with(&canonical_serve_dir) && index_path.is_file()).then_some(index_path)
+}
+
 /// Serve a single file
 async fn serve_file(file_path: &Path) -> Response<Body> {
     debug!("serving file: {:?}", file_path);
-- 
2.43.0


From a18397d15b919365361be742ad0f5fc305663f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 37/42] fix: restore the visited directories the shell has
 stored

The last access is stored as a fraction of a second but read back as an
integer, so the row of every directory visited for the first time was
refused at the next start and the directory forgotten.  Restored entries
also count from the reference time of the store, not from 1970, where the
score overflows and the next save is refused, and come in the order the
lookups rely on.
---
 dsh/src/history/frecency_history.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dsh/src/history/frecency_history.rs b/dsh/src/history/frecency_history.rs
index 7e86b8b..d129a8f 100644
--- a/dsh/src/history/frecency_history.rs
+++ b/dsh/src/history/frecency_history.rs
@@ -78,16 +78,18 @@ impl FrecencyHistory {
 
         // Load from DB snapshot
         let conn = db.get_connection();
-        if let Ok(mut stmt) = conn.prepare("SELECT path, score, last_accessed, access_count, half_life, context FROM directory_snapshot") {
+        if let Ok(mut stmt) = conn.prepare("SELECT path, score, last_accessed, access_count, half_life, context FROM directory_snapshot ORDER BY path") {
+             let reference_time = store.reference_time;
              let rows = stmt.query_map([], |row| {
                 let path: String = row.get(0)?;
                 let score: f64 = row.get(1)?;
-                let _last_accessed: i64 = row.get(2)?;
+                let _last_accessed: f64 = row.get(2)?;
                 let _access_count: i64 = row.get(3)?;
                 let half_life: f64 = row.get(4)?;
                 let context: Option<String> = row.get(5)?;
 
-                let mut item = ItemStats::new(&path, 0.0, half_life as f32, context);
+                let mut item =
+                    ItemStats::new(&path, reference_time, half_life as f32, context);
                 item.set_frecency(score as f32);
                 Ok(item)
             });
@@ -271,8 +273,12 @@ impl FrecencyHistory {
                             // Exists - skip for now
                         }
                         Err(idx) => {
-                            let mut new_item =
-                                ItemStats::new(&path, 0.0, half_life as f32, context);
+                            let mut new_item = ItemStats::new(
+                                &path,
+                                store_mut.reference_time,
+                                half_life as f32,
+                                context,
+                            );
                             new_item.set_frecency(score as f32);
                             store_mut.items.insert(idx, new_item);
                         }
-- 
2.43.0


From 5feab3781b356a4a75ee4e2170d98f1150aa96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 38/42] fix: report a history entry that could not be stored

A failed insert was ignored inside the transaction, which was then
committed without it: the caller was told that all of it was stored.
---
 dsh/src/history/command_history.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index a0cfe39..cb0c99d 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -437,8 +437,7 @@ impl History {
 
             for (cmd, when) in &entries {
                 let _count: i64 = upsert_stmt
-                    .query_row(rusqlite::params![cmd, when, context], |row| row.get(0))
-                    .unwrap_or(1);
+                    .query_row(rusqlite::params![cmd, when, context], |row| row.get(0))?;
             }
         }
         tx.commit()?;
-- 
2.43.0


From 9eca07ff8ab5afbefc222c18e61925527009a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 39/42] fix: roll back the completions a failed config.lisp
 registered

---
 dsh/src/lisp/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index b95c1d2..3227d67 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -1,4 +1,5 @@
-use crate::environment::{self, Environment};
+use crate::completion::AutoComplete;
+use crate::environment::{self, Environment, UnsafeSend};
 use crate::lisp::default_environment::default_env;
 use crate::lisp::interpreter::eval;
 #[cfg(test)]
@@ -42,6 +43,7 @@ pub struct LispEngine {
 struct EnvironmentSnapshot {
     alias: HashMap<String, String>,
     abbreviations: HashMap<String, String>,
+    autocompletion: UnsafeSend<Vec<AutoComplete>>,
     paths: Vec<String>,
     variables: HashMap<String, String>,
     exported_vars: HashSet<String>,
@@ -64,6 +66,7 @@ impl EnvironmentSnapshot {
         Self {
             alias: env.alias.clone(),
             abbreviations: env.abbreviations.clone(),
+            autocompletion: env.autocompletion.clone(),
             paths: env.paths.clone(),
             variables: env.variables.clone(),
             exported_vars: env.exported_vars.clone(),
@@ -144,6 +147,7 @@ impl LispEngine {
         let mut env = self.shell_env.write();
         env.alias = snapshot.alias;
         env.abbreviations = snapshot.abbreviations;
+        env.autocompletion = snapshot.autocompletion;
         env.paths = snapshot.paths;
         env.variables = snapshot.variables;
         env.exported_vars = snapshot.exported_vars;
-- 
2.43.0


From 3ff247db065b0c93b813379b0a659035630c8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 40/42] fix: direnv keeps a root it could not read, joins
 PATH_ADD with ':' and restores what it replaced

---
 dsh/src/direnv.rs | 92 +++++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/dsh/src/direnv.rs b/dsh/src/direnv.rs
index 4c8994e..4a4137b 100644
--- a/dsh/src/direnv.rs
+++ b/dsh/src/direnv.rs
@@ -28,41 +28,49 @@ pub struct EnvEntry {
 pub struct DirEnvironment {
     pub path: String,
     pub entries: Vec<Entry>,
-    pub env_path: String,
+    /// What the variables set by this root held before it was loaded.
+    saved: Vec<(String, Option<String>)>,
     loaded: bool,
 }
 
 impl DirEnvironment {
     pub fn new(path: String) -> Result<Self> {
-        let env_path = std::env::var("PATH")?;
         Ok(DirEnvironment {
             path,
             entries: Vec::new(),
-            env_path,
+            saved: Vec::new(),
             loaded: false,
         })
     }
 
-    pub fn set_env(&self, env: &mut Environment, out: &mut BufWriter<StdoutLock>) -> Result<()> {
+    pub fn set_env(
+        &mut self,
+        env: &mut Environment,
+        out: &mut BufWriter<StdoutLock>,
+    ) -> Result<()> {
         if self.loaded {
             return Ok(());
         }
 
-        let mut env_path = env.system_env_vars.get("PATH").cloned().unwrap_or_default();
         for entry in &self.entries {
             match entry {
                 Entry::Env(env_entry) => {
+                    let previous = env.system_env_vars.get(&env_entry.key).cloned();
+                    self.saved.push((env_entry.key.clone(), previous));
                     env.set_system_env_var(env_entry.key.clone(), env_entry.value.clone());
                     out.write_fmt(format_args!("+{} ", &env_entry.key)).ok();
                 }
                 Entry::PathAdd(path_entry) => {
-                    let mut path = path_entry.path.clone();
-                    path.push_str(&env_path);
-                    env_path = path;
+                    let previous = env.system_env_vars.get("PATH").cloned();
+                    let path = match &previous {
+                        Some(old) if !old.is_empty() => format!("{}:{}", path_entry.path, old),
+                        _ => path_entry.path.clone(),
+                    };
+                    self.saved.push(("PATH".to_string(), previous));
+                    env.set_system_env_var("PATH".to_string(), path);
                 }
             }
         }
-        env.set_system_env_var("PATH".to_string(), env_path);
 
         Ok(())
     }
@@ -71,20 +79,12 @@ impl DirEnvironment {
         if !self.loaded {
             return;
         }
-        let mut require_reset = false;
-        for entry in &self.entries {
-            match entry {
-                Entry::Env(env_entry) => {
-                    env.unset_system_env_var(&env_entry.key);
-                }
-                Entry::PathAdd(_) => {
-                    require_reset = true;
-                }
+        while let Some((key, previous)) = self.saved.pop() {
+            match previous {
+                Some(value) => env.set_system_env_var(key, value),
+                None => env.unset_system_env_var(&key),
             }
         }
-        if require_reset {
-            env.set_system_env_var("PATH".to_string(), self.env_path.clone());
-        }
         self.entries = Vec::new();
     }
 
@@ -174,28 +174,14 @@ pub fn check_path(pwd: &Path, environment: Arc<RwLock<Environment>>) -> Result<(
     let out = std::io::stdout().lock();
     let mut out = BufWriter::new(out);
 
-    let mut idx = 0;
-    while idx < environment.direnv_roots.len() {
-        let should_load = {
-            let env = &environment.direnv_roots[idx];
-            pwd.starts_with(&env.path) && !env.loaded
-        };
+    // Unload in reverse order so that nested roots hand back what they found.
+    for idx in (0..environment.direnv_roots.len()).rev() {
         let should_unload = {
             let env = &environment.direnv_roots[idx];
             !pwd.starts_with(&env.path) && env.loaded
         };
 
-        if should_load {
-            let mut dir_env = environment.direnv_roots.remove(idx);
-            dir_env.read_env_file()?;
-            out.write_fmt(format_args!("direnv: loading {}\n", dir_env.path))
-                .ok();
-            out.write_all(b"direnv: export ").ok();
-            dir_env.set_env(environment, &mut out)?;
-            out.write_all(b"\n").ok();
-            dir_env.loaded = true;
-            environment.direnv_roots.insert(idx, dir_env);
-        } else if should_unload {
+        if should_unload {
             let mut dir_env = environment.direnv_roots.remove(idx);
             out.write_fmt(format_args!("direnv: unloading {}\n", dir_env.path))
                 .ok();
@@ -203,6 +189,36 @@ pub fn check_path(pwd: &Path, environment: Arc<RwLock<Environment>>) -> Result<(
             dir_env.loaded = false;
             environment.direnv_roots.insert(idx, dir_env);
         }
+    }
+
+    let mut idx = 0;
+    while idx < environment.direnv_roots.len() {
+        let should_load = {
+            let env = &environment.direnv_roots[idx];
+            pwd.starts_with(&env.path) && !env.loaded
+        };
+
+        if should_load {
+            let mut dir_env = environment.direnv_roots.remove(idx);
+            match dir_env.read_env_file() {
+                Ok(()) => {
+                    out.write_fmt(format_args!("direnv: loading {}\n", dir_env.path))
+                        .ok();
+                    out.write_all(b"direnv: export ").ok();
+                    dir_env.set_env(environment, &mut out).ok();
+                    out.write_all(b"\n").ok();
+                    dir_env.loaded = true;
+                }
+                Err(err) => {
+                    out.write_fmt(format_args!(
+                        "direnv: failed to load {}: {}\n",
+                        dir_env.path, err
+                    ))
+                    .ok();
+                }
+            }
+            environment.direnv_roots.insert(idx, dir_env);
+        }
 
         idx += 1;
     }
-- 
2.43.0


From 5f9e636c35cea49d137d4bcd396f256a3e9fbd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 41/42] fix: redact the whole word of a secret option, quoted
 parts included

---
 dsh/src/secrets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/secrets.rs b/dsh/src/secrets.rs
index cf95328..69e0821 100644
--- a/dsh/src/secrets.rs
+++ b/dsh/src/secrets.rs
@@ -64,7 +64,7 @@ static ASSIGNMENT_PATTERN: Lazy<Option<Regex>> =
 /// Secret-like CLI options (e.g., --password xxx, --token=xxx, -p xxx)
 static OPTION_SECRET_PATTERN: Lazy<Option<Regex>> = Lazy::new(|| {
     Regex::new(
-        r#"(?i)(--?(?:password|passwd|passphrase|token|secret|api[-_]?key|access[-_]?token)(?:\s+|=)|-p\s+)([^\s"']+|\"[^\"]*\"|'[^']*')"#,
+        r#"(?is)(--?(?:password|passwd|passphrase|token|secret|api[-_]?key|access[-_]?token)(?:\s+|=)|-p\s+)((?:\\.?|"(?:\\.|[^"\\])*"?|'[^']*'?|[^\s"'\\])+)"#,
     )
     .ok()
 });
-- 
2.43.0


From fb6c67e0a9850734a9d7bc52ee8c658f6e90e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:17 +0000
Subject: [PATCH 42/42] fix: find the last symbol after any white space without
 cutting a character

A line holding a wide space (U+3000) made the suggestion code slice inside a
character and took the shell down.
---
 dsh/src/repl/completion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsh/src/repl/completion.rs b/dsh/src/repl/completion.rs
index 616aefd..be3f5d3 100644
--- a/dsh/src/repl/completion.rs
+++ b/dsh/src/repl/completion.rs
@@ -152,9 +152,9 @@ pub fn mcp_form_completion(input: &str) -> Option<String> {
 
 pub fn trailing_symbol(input: &str) -> &str {
     let boundary = input
-        .rfind(|c: char| c.is_whitespace() || matches!(c, '(' | ')'))
-        .map(|idx| idx + 1)
-        .unwrap_or(0);
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || matches!(c, '(' | ')'))
+        .map_or(0, |(idx, c)| idx + c.len_utf8());
     &input[boundary..]
 }
 
-- 
2.43.0

