//! The same code on another platform: a child process (node with a wasm32
//! module, or Miri for a big-endian target; see ../../narrow) that runs encoded
//! histories. check.py names its command in VERIF_BACKEND.

use std::fs::File;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

struct Backend {
    child: Child,
    errors: std::path::PathBuf,
}

static BACKEND: Mutex<Option<Backend>> = Mutex::new(None);

/// What VERIF_PLATFORM says: "wasm", "big" or nothing.
pub fn platform() -> &'static str {
    static P: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    P.get_or_init(|| std::env::var("VERIF_PLATFORM").unwrap_or_default())
}

fn start() -> Backend {
    let command = std::env::var("VERIF_BACKEND").unwrap_or_default();
    let mut parts = command.split('\u{1f}');
    let errors = std::env::temp_dir().join(format!("verif-backend-{}", std::process::id()));
    let child = File::create(&errors).and_then(|f| {
        Command::new(parts.next().unwrap_or(""))
            .args(parts)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(f)
            .spawn()
    });
    match child {
        Ok(child) => Backend { child, errors },
        Err(e) => {
            eprintln!("harness error: cannot start the other platform: {}", e);
            std::process::exit(70);
        }
    }
}

fn exchange(b: &mut Backend, code: &[u8]) -> std::io::Result<Vec<u8>> {
    let broken = || std::io::Error::from(std::io::ErrorKind::BrokenPipe);
    let i = b.child.stdin.as_mut().ok_or_else(broken)?;
    i.write_all(&(code.len() as u32).to_le_bytes())?;
    i.write_all(code)?;
    i.flush()?;
    let o = b.child.stdout.as_mut().ok_or_else(broken)?;
    let mut head = [0u8; 4];
    o.read_exact(&mut head)?;
    let mut answer = vec![0; u32::from_le_bytes(head) as usize];
    o.read_exact(&mut answer)?;
    Ok(answer)
}

const UNDEFINED: &str = "Undefined Behavior";

fn errors(b: &Backend) -> String {
    std::fs::read_to_string(&b.errors).unwrap_or_default()
}

fn end(b: &mut Backend) {
    let _ = b.child.kill();
    let _ = b.child.wait();
    let _ = std::fs::remove_file(&b.errors);
}

/// The output of the history, or how it failed.
pub fn run(code: &[u8]) -> Result<Vec<u8>, String> {
    let mut slot = match BACKEND.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let mut b = match slot.take() {
        Some(b) => b,
        None => start(),
    };
    let mut answer = exchange(&mut b, code);
    if answer.is_err() && !errors(&b).contains(UNDEFINED) {
        // Once more, from the start.
        end(&mut b);
        b = start();
        answer = exchange(&mut b, code);
    }
    match answer {
        Ok(mut a) if !a.is_empty() => {
            let failed = a.remove(0) != 0;
            *slot = Some(b);
            if failed {
                Err(String::from_utf8_lossy(&a).into_owned())
            } else {
                Ok(a)
            }
        }
        _ => {
            let text = errors(&b);
            end(&mut b);
            if let Some(at) = text.find(UNDEFINED) {
                return Err(text[at..].chars().take(600).collect());
            }
            let tail: String = text.chars().rev().take(800).collect::<Vec<_>>().into_iter().rev().collect();
            eprintln!("harness error: the other platform ended: {}", tail);
            std::process::exit(70);
        }
    }
}

/// Ends the child; the process is about to exit.
pub fn stop() {
    if let Ok(mut slot) = BACKEND.lock() {
        if let Some(mut b) = slot.take() {
            end(&mut b);
        }
    }
}
