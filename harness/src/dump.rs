//! Reads texts in hexadecimal, one in a line, and prints all that the library
//! makes of each in one line.
#[allow(dead_code)]
mod drive;
#[allow(dead_code)]
mod refmodel;
use std::io::{BufRead, Write};

fn results(text: &str) -> String {
    let mut r = String::new();
    for xmlns in [false, true] {
        let mut ns = hml_rs::names::Namespace::new(xmlns);
        let mut stack = hml_rs::names::NamespaceStack::new(&mut ns);
        let run = drive::read_string::<drive::Lc>(text, drive::Opts { xmlns, version: None, more: 3 }, &mut stack);
        for e in &run.events {
            r += &format!("{e:?}\n");
        }
        r += &format!("{:?}\n{:?}\n", run.err, run.after);
        let mut ns = hml_rs::names::Namespace::new(xmlns);
        let mut stack = hml_rs::names::NamespaceStack::new(&mut ns);
        let _ = drive::each_event(text, &mut stack, None, &mut |_, _| Ok(())).map(|e| {
            if let Some(e) = e {
                r += &format!("{e}\n");
            }
        });
    }
    use hml_rs::escape::{escape, Entities, ESCAPE_ATTR};
    r += &format!("{:?}\n{:?}\n", escape(text, 0), escape(text, ESCAPE_ATTR));
    let x = Entities::xml();
    r += &format!("{:?}\n{:?}\n", x.replace_entities(true, text), x.replace_entities(false, text));
    #[cfg(hml_verif)]
    {
        let x = hml_rs::hml::escape::Escapable::new(text);
        r += &format!("{:?}\n", x.map(|x| x.as_ref().to_string()).ok());
    }
    r
}

fn main() {
    // ends with its parent, and gives up on a text that takes too long
    let count = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let parent = std::os::unix::process::parent_id();
    let seen = count.clone();
    std::thread::spawn(move || {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if std::os::unix::process::parent_id() != parent {
                std::process::exit(9);
            }
            // odd while a text is at work
            let now = seen.load(std::sync::atomic::Ordering::SeqCst);
            same = if now == last && now % 2 == 1 { same + 1 } else { 0 };
            last = now;
            if same > 120 {
                std::process::exit(9);
            }
        }
    });
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let bytes: Vec<u8> = (0..line.len() / 2).map(|i| u8::from_str_radix(&line[2 * i..2 * i + 2], 16).unwrap()).collect();
        let text = String::from_utf8(bytes).unwrap();
        count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let r = match std::panic::catch_unwind(|| results(&text)) {
            Ok(r) => r,
            Err(_) => "panic".to_string(),
        };
        count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut out = r.replace('\\', "\\\\").replace('\n', "\\n");
        out.push('\n');
        if stdout.write_all(out.as_bytes()).and_then(|_| stdout.flush()).is_err() {
            return;
        }
    }
}
