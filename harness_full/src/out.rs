use std::fs::File;
use std::io::BufWriter;
use std::io::Write;
use std::panic::catch_unwind;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use std::sync::Mutex;

pub use fakempi::Rng;
pub use serde_json::json;
pub use serde_json::Value;

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub options: Vec<(String, String)>,
    pub path: std::path::PathBuf,
    out: Arc<Mutex<BufWriter<File>>>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, out_path: &str, options: &[String]) -> Self {
        let out = Arc::new(Mutex::new(BufWriter::new(File::create(out_path).unwrap())));
        let o = out.clone();
        fakempi::set_fatal_hook(move |kind, detail| {
            let mut o = o.lock().unwrap_or_else(|e| e.into_inner());
            let v = json!({"ev": "fatal", "kind": kind, "detail": detail});
            let _ = writeln!(o, "{v}");
            let _ = o.flush();
        });
        Ctx {
            seed,
            thorough,
            path: std::path::PathBuf::from(out_path),
            options: options
                .iter()
                .filter_map(|o| o.split_once('=').map(|(a, b)| (a.into(), b.into())))
                .collect(),
            out,
        }
    }

    pub fn option(&self, name: &str) -> Option<u64> {
        self.options
            .iter()
            .find(|(k, _)| k == name)
            .map(|(_, v)| v.parse().unwrap())
    }

    pub fn emit(&self, v: Value) {
        let mut o = self.out.lock().unwrap();
        writeln!(o, "{v}").unwrap();
    }

    pub fn flush(&self) {
        self.out.lock().unwrap().flush().unwrap();
    }

    pub fn finish(&self) {
        self.flush();
    }

    pub fn pick(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

/// Runs f; a panic is a result like any other.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into())
    })
}
