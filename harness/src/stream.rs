//! Readers and writers which deliver, split, interrupt and fail as a script says.
use serde_json::Value;
use std::io::{Error, ErrorKind, Read, Result, Write};
/// One step of a script: a positive number is the most bytes one call moves, 0 an interruption.
pub struct Script {
    steps: Vec<usize>,
    next: usize,
    fail_at: Option<usize>,
    kind: ErrorKind,
    /// Does the stream fail only the first time?
    once: bool,
    /// Has the stream failed(not only been interrupted)?
    pub failed: bool,
}
impl Script {
    pub fn from(v: &Value) -> Self {
        let steps = v["chunks"]
            .as_array()
            .map(|a| a.iter().map(|c| c.as_u64().unwrap() as usize).collect())
            .unwrap_or_default();
        let kind = match v["kind"].as_str() {
            Some("BrokenPipe") => ErrorKind::BrokenPipe,
            Some("TimedOut") => ErrorKind::TimedOut,
            Some("WouldBlock") => ErrorKind::WouldBlock,
            Some("PermissionDenied") => ErrorKind::PermissionDenied,
            _ => ErrorKind::ConnectionReset,
        };
        Self { steps, next: 0, fail_at: v["fail_at"].as_u64().map(|v| v as usize), kind, once: v["once"] == true, failed: false }
    }
    fn fail(&mut self) -> Error {
        self.failed = true;
        if self.once {
            self.fail_at = None;
        }
        Error::new(self.kind, "scripted failure")
    }
    /// How many of `want` bytes the next call may move, `done` of all having been moved.
    fn step(&mut self, done: usize, want: usize) -> Result<usize> {
        if want == 0 {
            return Ok(0);
        }
        let mut limit = want;
        if let Some(fail_at) = self.fail_at {
            if done >= fail_at {
                return Err(self.fail());
            }
            limit = limit.min(fail_at - done);
        }
        if self.steps.is_empty() {
            return Ok(limit);
        }
        let chunk = self.steps[self.next % self.steps.len()];
        self.next += 1;
        if chunk == 0 {
            Err(Error::new(ErrorKind::Interrupted, "scripted interruption"))
        } else {
            Ok(limit.min(chunk))
        }
    }
}
pub struct ScriptReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub script: Script,
}
impl Read for ScriptReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let want = buf.len().min(self.data.len() - self.pos);
        if want == 0 && !buf.is_empty() {
            // The end of the data can fail too.
            if self.script.fail_at.is_some_and(|at| self.pos >= at) {
                return Err(self.script.fail());
            }
            return Ok(0);
        }
        let n = self.script.step(self.pos, want)?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct ScriptWriter {
    pub data: Vec<u8>,
    pub script: Script,
    pub fail_flush: bool,
    pub zero: bool,
}
impl Write for ScriptWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = match self.script.step(self.data.len(), buf.len()) {
            // A sink that is full may accept no bytes instead of failing.
            Err(e) if self.zero && e.kind() != ErrorKind::Interrupted => return Ok(0),
            n => n?,
        };
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if self.fail_flush {
            if self.script.once {
                self.fail_flush = false;
            }
            return Err(self.script.fail());
        }
        Ok(())
    }
}
