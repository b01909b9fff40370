//! Verdict, known findings, evidence.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable identification of what fails (compared with known_findings.txt)
    pub sig: String,
    pub msg: String,
    pub replay: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub start: Instant,
    pub known: Vec<(String, String)>, // (signature, description)
    pub known_hit: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub outcomes: u64,
    pub models: Vec<String>,
    pub notes: Vec<String>,
    pub bounds: Vec<String>,
    pub exhaustive: bool,
    pub samples: u64,
    pub budget_s: f64,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let sig = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("");
                    let d = it.next().unwrap_or("");
                    if p == prop && !sig.is_empty() {
                        known.push((sig.to_string(), d.to_string()));
                    }
                }
            }
        }
        let budget_s = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
            Tier::Quick => 240.0,
            Tier::Thorough => 700.0,
        });
        Ctx {
            prop: prop.into(),
            tier,
            start: Instant::now(),
            known,
            known_hit: BTreeMap::new(),
            violations: vec![],
            states: 0,
            transitions: 0,
            validated: 0,
            outcomes: 0,
            models: vec![],
            notes: vec![],
            bounds: vec![],
            exhaustive: true,
            samples: 0,
            budget_s,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|k| k.0 == sig)
    }
    /// Returns true when it was a new (unlisted) violation.
    pub fn violation(&mut self, v: Violation) -> bool {
        if self.is_known(&v.sig) {
            *self.known_hit.entry(v.sig.clone()).or_insert(0) += 1;
            return false;
        }
        if self.violations.len() < 20 {
            self.violations.push(v);
        }
        true
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    pub fn finish(self) -> i32 {
        let mut this = self;
        if let Ok(n) = std::env::var("MC_NOTE") {
            this.notes.push(n);
        }
        this.emit()
    }
    fn emit(self) -> i32 {
        let dir = verif_dir();
        // a second configuration of the same check (see check.sh) does not write the evidence file
        let tag = std::env::var("MC_TAG").unwrap_or_default();
        let wall = self.elapsed();
        for (sig, d) in &self.known {
            if self.known_hit.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.prop, d, sig);
            } else {
                println!("note: listed finding {sig} was not reproduced in this run");
            }
        }
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        for (i, v) in self.violations.iter().enumerate() {
            let path = format!("{dir}/replays/{}{tag}-{}.txt", self.prop, i);
            let _ = std::fs::write(&path, format!("{}\nsignature: {}\n{}\n", v.msg, v.sig, v.replay));
            println!("--- {} [{}]", v.msg, v.sig);
            for l in v.replay.lines().take(60) {
                println!("    {l}");
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        let mut j = String::new();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let arr = |v: &[String]| {
            let mut s = String::from("[");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                let _ = write!(s, "{}", jstr(x));
            }
            s + "]"
        };
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"samples\": {},\n  \"models\": {},\n  \"bounds\": {},\n  \"notes\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            jstr(&self.prop),
            jstr(if self.quick() { "quick" } else { "thorough" }),
            seed,
            self.states,
            self.transitions,
            self.validated,
            self.outcomes,
            self.exhaustive,
            self.samples,
            arr(&self.models),
            arr(&self.bounds),
            arr(&self.notes),
            arr(&assumptions()),
            wall,
            self.violations.len()
        );
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        if !tag.is_empty() {
        } else if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", self.prop), j) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        println!(
            "{} {:?}: states={} transitions={} outcomes={} exhaustive={} violations={} wall={:.1}s",
            self.prop,
            self.tier,
            self.states,
            self.transitions,
            self.outcomes,
            self.exhaustive,
            self.violations.len(),
            wall
        );
        if self.violations.is_empty() {
            0
        } else {
            1
        }
    }
}

fn assumptions() -> Vec<String> {
    let mut v = vec![
        "the transition function explored is the crate's own code, called through its public API; nothing is abstracted away except values outside the stated alphabets".to_string(),
        "state keys are 128-bit hashes of a canonical rendering; a hash collision could hide a state".to_string(),
    ];
    if cfg!(feature = "hook") {
        v.push("states are deduplicated on the full private state (cfg mqtt_verif Debug/Clone)".into());
    } else {
        v.push("built without the mqtt_verif hook: states are cloned by replay and deduplicated on observables plus reference model".into());
    }
    v
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
