//! The interpreter as a program, for Miri: the same frames as run.mjs.

#[path = "../../interp.rs"]
mod interp;

use std::io::{Read, Write};

fn main() {
    let (mut input, mut output) = (std::io::stdin(), std::io::stdout());
    loop {
        let mut head = [0u8; 4];
        if input.read_exact(&mut head).is_err() {
            return;
        }
        let n = u32::from(head[0]) | u32::from(head[1]) << 8 | u32::from(head[2]) << 16 | u32::from(head[3]) << 24;
        let mut code = vec![0; n as usize];
        if input.read_exact(&mut code).is_err() {
            return;
        }
        let mut answer = Vec::new();
        let code = &code[..];
        let done = match code.first() {
            // Two threads at once.
            Some(255) => std::thread::scope(|s| {
                let other = s.spawn(|| interp::run(&code[1..]));
                let first = std::panic::catch_unwind(|| interp::run(&code[1..]));
                match (first, other.join()) {
                    (Ok(a), Ok(b)) if a != b => Ok(b"two threads got different results".to_vec()),
                    (Ok(a), Ok(_)) => Ok(a),
                    (Err(e), _) | (_, Err(e)) => Err(e),
                }
            }),
            _ => std::panic::catch_unwind(|| interp::run(code)),
        };
        match done {
            Ok(out) => {
                answer.push(0);
                answer.extend(out);
            }
            Err(e) => {
                answer.push(1);
                let text = match e.downcast_ref::<String>() {
                    Some(s) => s.clone(),
                    None => e.downcast_ref::<&str>().unwrap_or(&"panic").to_string(),
                };
                answer.extend(text.bytes());
            }
        }
        let n = answer.len() as u32;
        let mut frame = vec![n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8];
        frame.extend(answer);
        if output.write_all(&frame).is_err() || output.flush().is_err() {
            return;
        }
    }
}
