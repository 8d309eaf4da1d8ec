import sys; sys.path.insert(0,'/verif/tools/dev')
from mkseed import srvseed
C='crates/aquascope_serve/src/container.rs'; S='crates/aquascope_serve/src/server.rs'
srvseed('p16-one-workspace','P16',[(C,'let td = tempdir().context(UnableToCreateTempDirSnafu)?;','''let td = tempfile::Builder::new()
      .prefix("aquascope-workspace")
      .rand_bytes(0)
      .tempdir()
      .context(UnableToCreateTempDirSnafu)?;'''),(C,'use tempfile::{tempdir, TempDir};','use tempfile::TempDir;')],
 "a request that comes while another one is processed",
 "The workspace has a fixed name, so a second request at the same time is refused.",
 '''out = []
ts = [threading.Thread(target=lambda: out.append(post("permissions", "//wait 1.5\\nfn main() {}"))) for _ in range(2)]
for t in ts: t.start()
for t in ts: t.join()
print(out)
end(all(x.get("success") is True for x in out))
''')
srvseed('p16-explicit-cleanup','P16',[(C,'''      workspace: td,
''','''      workspace: td.into_path(),
'''),(C,'  workspace: TempDir,','  workspace: PathBuf,'),(C,'let base = self.workspace.path();','let base = &self.workspace;'),
 (C,'use tempfile::{tempdir, TempDir};','use tempfile::tempdir;'),
 (C,'''  pub async fn cleanup(self) -> Result<()> {
    Ok(())''','''  pub async fn cleanup(self) -> Result<()> {
    fs::remove_dir_all(&self.workspace).context(UnableToWriteFileSnafu)''')],
 "a client that goes away while its program is analysed",
 "The workspace is only removed by the explicit cleanup, which never happens if the client closes the connection before the answer.",
 '''import pathlib
post("permissions", "fn main() {}")
post("permissions", "//wait 2\\nfn main() {}", timeout=0.8)
time.sleep(4)
left = os.listdir(os.environ["TMPDIR"])
print(left)
end(left == [])
''')
P='''  pub async fn permissions(
    &self,
    req: &SingleFileRequest,
  ) -> Result<ServerResponse> {
    self.write_source_code(&req.code).await?;
'''
srvseed('p16-trimmed-source','P16',[(C,'fs::write(main, code).context(UnableToWriteFileSnafu)','''let lines = code.lines().collect::<Vec<_>>();
    fs::write(main, lines.join("\\n")).context(UnableToWriteFileSnafu)''')],
 "a program whose lines end with a carriage return and newline, or that ends with a newline",
 "The analysed program is not the one of the request, so all positions in the answer are off.",
 '''code = 'fn main() {\\r\\n  let s = "a\\r\\nb";\\r\\n}\\r\\n'
r = post("interpreter", code)
runs = [json.loads(l) for l in open(os.environ["DEMO_LOG"], newline="\\n")]
print(runs)
end("error" not in r and runs[-1]["raw"] == code)
''')
srvseed('p16-wrong-operation','P16',[(S,'let v = knt.$name(req).await;','''let fails = req
              .config
              .as_ref()
              .map_or(false, |cfg| cfg.get("shouldFail").is_some());
            let v = if fails {
              // Programs that fail are for the interpreter.
              knt.interpreter(req).await
            } else {
              knt.$name(req).await
            };''')],
 "a request for permissions with the setting shouldFail",
 "Such a request is answered with the result of the interpreter.",
 '''r = post("permissions", "fn main() {}", {"shouldFail": True})
print(r)
end(json.loads(r["stdout"])[0]["Ok"]["op"] == "permissions")
''')
srvseed('p16-stderr-fails','P16',[(C,'''    let mut cmd = self.interpreter_command(req)?;

    let (stdout, stderr) = self.exec_output(&mut cmd).await?;

    Ok(ServerResponse {
      // XXX: we'll assume that if there was anything on `stdout`
      // then there's something successful to report. This does not
      // mean that `stderr` was empty and all things there shouldn't
      // go unreported.
      success: !stdout.trim().is_empty(),''','''    let mut cmd = self.interpreter_command(req)?;

    let (stdout, stderr) = self.exec_output(&mut cmd).await?;

    Ok(ServerResponse {
      success: !stdout.trim().is_empty() && stderr.trim().is_empty(),''')],
 "a program with a result that the compiler warns about",
 "The interpreter's result is reported as a failure when there is also a warning.",
 '''r = post("interpreter", "//warn unused variable\\nfn main() {}")
print(r)
end(r.get("success") is True)
''')
srvseed('p16-sticky-config','P16',[(C,'''      if config.contains_key("shouldFail") {
        cmd.arg("--should-fail");
      }''','''      static SHOULD_FAIL: std::sync::OnceLock<bool> =
        std::sync::OnceLock::new();
      if *SHOULD_FAIL.get_or_init(|| config.contains_key("shouldFail")) {
        cmd.arg("--should-fail");
      }''')],
 "two requests with a configuration, of which one has shouldFail and the other does not",
 "The first request with a configuration decides for all later ones.",
 '''post("interpreter", "fn main() {}", {"other": True})
r = post("interpreter", "fn main() {}", {"shouldFail": True})
print(r)
end("--should-fail" in r["stdout"])
''')
