//! Parameters from files, overrides and defaults.
use derive_custom::subsweep_parameters;
use serde_yaml::Mapping;
use serde_yaml::Value as Yaml;
use subsweep::parameter_plugin::parameter_file_contents::Override;
use subsweep::parameter_plugin::ParameterFileContents;
use subsweep::simulation::Simulation;

use crate::out::*;

fn three() -> i64 {
    3
}
fn four() -> i64 {
    4
}

#[subsweep_parameters]
struct Inner {
    #[serde(default = "three")]
    x: i64,
    #[serde(default = "four")]
    y: i64,
}

fn inner() -> Inner {
    Inner { x: 3, y: 4 }
}

// One required field.
#[subsweep_parameters("one")]
struct One {
    a: i64,
    #[serde(default = "four")]
    b: i64,
    #[serde(default = "inner")]
    c: Inner,
}

// Everything has a default.
#[subsweep_parameters("two")]
struct Two {
    #[serde(default)]
    a: i64,
    #[serde(default = "inner")]
    c: Inner,
    #[serde(default = "inner")]
    d: Inner,
}

// The whole section is a number.
#[subsweep_parameters("three")]
struct Three(i64);

fn leaf(i: i64) -> Value {
    json!({ "leaf": i })
}
fn i(x: &Inner) -> Value {
    json!({"map": {"x": leaf(x.x), "y": leaf(x.y)}})
}

fn extract(sim: &mut Simulation, s: &str) -> Value {
    let r = guard(|| match s {
        "one" => {
            let v = sim.add_parameter_type_and_get_result::<One>();
            json!({"map": {"a": leaf(v.a), "b": leaf(v.b), "c": i(&v.c)}})
        }
        "two" => {
            let v = sim.add_parameter_type_and_get_result::<Two>();
            json!({"map": {"a": leaf(v.a), "c": i(&v.c), "d": i(&v.d)}})
        }
        "three" => leaf(sim.add_parameter_type_and_get_result::<Three>().0),
        _ => unreachable!(),
    });
    r.unwrap_or(json!({"refused": 0}))
}

fn tree(rng: &mut Rng, depth: usize, keys: &[&str]) -> Yaml {
    if depth == 0 || rng.below(8) == 0 {
        return Yaml::from(rng.below(9) as i64 + 10);
    }
    let mut m = Mapping::new();
    for k in keys {
        if rng.below(3) > 0 {
            let inner = *k == "c" || *k == "d";
            let d = if inner != (rng.below(12) == 0) { 1 } else { 0 };
            m.insert(Yaml::from(*k), tree(rng, d, &["x", "y"]));
        }
    }
    if rng.below(25) == 0 {
        m.insert(Yaml::from("z"), Yaml::from(1));
    }
    Yaml::Mapping(m)
}

fn tla(y: &Yaml) -> Value {
    match y {
        Yaml::Mapping(m) => {
            let o: serde_json::Map<String, Value> =
                m.iter().map(|(k, v)| (k.as_str().unwrap().to_owned(), tla(v))).collect();
            json!({ "map": o })
        }
        y => leaf(y.as_i64().expect("a number")),
    }
}

fn section(rng: &mut Rng, s: &str) -> Yaml {
    match s {
        "one" => {
            let mut t = tree(rng, 1, &["a", "b", "c"]);
            if let Some(m) = t.as_mapping_mut() {
                if rng.below(6) > 0 {
                    m.insert(Yaml::from("a"), Yaml::from(1));
                }
            }
            t
        }
        "two" => tree(rng, 1, &["a", "c", "d"]),
        _ => Yaml::from(rng.below(5) as i64),
    }
}

fn random_override(rng: &mut Rng) -> (Override, String) {
    let s = ["one", "two", "three", "two", "one", "nothing"][rng.below(6)];
    let mut keys: Vec<&str> = vec![];
    let mut value = Yaml::from(rng.below(90) as i64 + 20);
    match s {
        "three" if rng.below(8) > 0 => {}
        _ if rng.below(6) == 0 => value = section(rng, s),
        _ => {
            let k = if s == "one" { ["a", "b", "c", "c"] } else { ["a", "c", "d", "c"] }[rng.below(4)];
            keys.push(k);
            if k == "c" || k == "d" {
                if rng.below(4) > 0 {
                    keys.push(["x", "y"][rng.below(2)]);
                } else {
                    value = tree(rng, 1, &["x", "y"]);
                }
            } else if rng.below(25) == 0 {
                keys.push("x");
            }
            if rng.below(30) == 0 {
                keys.push("z");
            }
        }
    }
    let text = std::iter::once(&s).chain(keys.iter()).cloned().collect::<Vec<_>>().join("/");
    (Override { section: s.into(), keys: keys.iter().map(|k| k.to_string()).collect(), value }, text)
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(7919) + 5);
    for run in 0..ctx.pick(400, 2500) as u64 {
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r);
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let all = ["one", "two", "three"];
    let mut file = Mapping::new();
    let chance = rng.below(4);
    for s in all {
        if rng.below(3) < chance {
            file.insert(Yaml::from(s), section(rng, s));
        }
    }
    let mut overrides = vec![];
    for _ in 0..rng.below(6) {
        let (mut o, text) = random_override(rng);
        // as given on the command line, where a value can be written without a colon
        if let Some(v) = o.value.as_i64() {
            o = match format!("{text}:{}{v}", [" ", ""][rng.below(2)]).parse() {
                Ok(o) => o,
                Err(e) => {
                    ctx.emit(json!({"ev": "fatal", "kind": "override", "detail": format!("{text}: {e}")}));
                    return;
                }
            };
        }
        overrides.push(o);
    }
    let text = if file.is_empty() {
        "{}".to_owned()
    } else {
        serde_yaml::to_string(&file).unwrap()
    };
    let os: Vec<Value> = overrides
        .iter()
        .map(|o| json!({"section": o.section, "keys": o.keys, "value": tla(&o.value)}))
        .collect();
    ctx.emit(json!({"ev": "file", "run": run, "file": tla(&Yaml::Mapping(file))["map"], "overrides": os}));
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(text);
    sim.with_parameter_overrides(overrides);
    let mut order = all.to_vec();
    shuffle(rng, &mut order);
    order.truncate(1 + rng.below(3));
    for s in order.iter() {
        let v = extract(&mut sim, s);
        ctx.emit(json!({"ev": "extract", "section": s, "value": v}));
        if v.get("refused").is_some() {
            return;
        }
        if rng.below(4) == 0 {
            ctx.emit(json!({"ev": "extract", "section": s, "value": extract(&mut sim, s)}));
        }
    }
    // what is recorded of them, used again
    let contents = sim.unwrap_resource::<ParameterFileContents>().contents();
    let again: Yaml = serde_yaml::from_str(&contents).unwrap();
    ctx.emit(json!({"ev": "recorded", "file": tla(&again)["map"]}));
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(contents);
    shuffle(rng, &mut order);
    for s in order {
        ctx.emit(json!({"ev": "again", "section": s, "value": extract(&mut sim, s)}));
    }
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}
