//! Runs the compiler on cases (one JSON object per line on stdin) and writes
//! what was observed (one JSON object per line on stdout).
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use ticc::{CompilationUnit, CompleteUnit, ImportError, InterpretError, ModuleResolver, Options, Pos, Runner, Span};

#[derive(Default)]
struct Modules {
    units: HashMap<String, CompleteUnit>,
    /// What imports lead to, if it is not a module with the same name
    find: HashMap<String, String>,
}

fn found(m: &Value) -> HashMap<String, String> {
    match m["find"].as_object() {
        Some(f) => f.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_owned())).collect(),
        None => HashMap::new(),
    }
}

impl ModuleResolver for Modules {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        let name = self.find.get(name).map_or(name, |n| n.as_str());
        match name {
            "!missing" => Err(ImportError::DoesNotExist),
            "cycle" | "!cycle" => Err(ImportError::ImportCycle),
            "io" => Err(ImportError::Io(std::io::Error::new(std::io::ErrorKind::Other, "broken"))),
            _ => self.units.get(name).cloned().ok_or(ImportError::DoesNotExist),
        }
    }
}

struct Case {
    src: String,
    modules: Arc<Modules>,
    /// The same modules, compiled without optimization
    plain: Arc<Modules>,
}

fn options(optimize: bool) -> Options {
    Options { verify: true, optimize }
}

impl Case {
    fn unit(&self, optimize: bool) -> CompilationUnit {
        let modules = if optimize { &self.modules } else { &self.plain };
        CompilationUnit::new(&self.src, options(optimize), modules.clone())
    }
}

fn span(s: Span) -> Value {
    json!([s.start().source_pos(), s.end().source_pos()])
}

fn diagnostics(u: &mut CompilationUnit) -> Value {
    u.diagnostics()
        .map(|d| {
            json!([
                d.span.start().source_pos(),
                d.span.end().source_pos(),
                match d.severity {
                    ticc::Severity::Error => "error",
                    ticc::Severity::Warning => "warning",
                },
                d.message
            ])
        })
        .collect()
}

fn tokens(u: &mut CompilationUnit) -> Value {
    use ticc::TokenKind::*;
    u.tokens()
        .map(|t| {
            json!([
                t.span.start().source_pos(),
                t.span.end().source_pos(),
                match t.kind {
                    Keyword => "keyword",
                    Type => "type",
                    TypeVariable => "typevar",
                    Ctor => "ctor",
                    Value => "value",
                    Function => "function",
                    Operator => "operator",
                    Punctuation => "punct",
                    Number => "number",
                    String => "string",
                    Comment => "comment",
                }
            ])
        })
        .collect()
}

fn definition(u: &mut CompilationUnit, p: usize) -> Value {
    match u.find_definition(Pos::new(p as u32)) {
        Some(s) => span(s),
        None => json!([]),
    }
}

fn references(u: &mut CompilationUnit, p: usize) -> Value {
    match u.find_references(Pos::new(p as u32)) {
        Some(s) => json!([s.into_iter().map(span).collect::<Vec<_>>()]),
        None => json!([]),
    }
}

fn info(u: &mut CompilationUnit, p: usize) -> Value {
    match u.info(Pos::new(p as u32)) {
        Some(i) => json!([i.span.start().source_pos(), i.span.end().source_pos(), i.doc]),
        None => json!([]),
    }
}

fn completions(u: &mut CompilationUnit, p: usize) -> Value {
    match u.completions(Pos::new(p as u32)) {
        Some(c) => json!([c.into_iter().map(|c| c.name).collect::<Vec<_>>()]),
        None => json!([]),
    }
}

/// Values at all positions, as [position where it starts, value]
fn runs(n: usize, mut f: impl FnMut(usize) -> Value) -> Value {
    let mut out: Vec<Value> = Vec::new();
    let mut prev = None;
    for p in 0..n {
        let v = f(p);
        if prev.as_ref() != Some(&v) {
            out.push(json!([p, v]));
            prev = Some(v);
        }
    }
    Value::Array(out)
}

fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({ "panic": msg })
        }
    }
}

const RUNNERS: [(&str, Runner); 3] = [
    ("lambda", Runner::Lambda),
    ("bytecode", Runner::Bytecode),
    ("treewalk", Runner::Treewalk),
];

fn eval(case: &Case, optimize: bool, runner: Runner) -> Value {
    guarded(|| match case.unit(optimize).interpret(runner) {
        Ok(s) => json!(["ok", s]),
        Err(t) => json!(["trap", t.message]),
    })
}

fn eval_main(case: &Case, optimize: bool, runner: Runner, input: &[u8]) -> Value {
    guarded(|| match case.unit(optimize).interpret_main(runner, input) {
        Ok(s) => json!(["ok", s]),
        Err(InterpretError::Trap(t)) => json!(["trap", t.message]),
        Err(InterpretError::NoMain) => json!(["nomain"]),
        Err(InterpretError::InvalidMain) => json!(["badmain"]),
    })
}

fn query(u: &mut CompilationUnit, q: &Value) -> Value {
    let p = q[1].as_u64().unwrap_or(0) as usize;
    match q[0].as_str().unwrap() {
        "diags" => diagnostics(u),
        "toks" => tokens(u),
        "def" => definition(u, p),
        "refs" => references(u, p),
        "info" => info(u, p),
        "comp" => completions(u, p),
        // iterators that are not used up
        "toks1" => json!(u.tokens().take(p).count()),
        "diags1" => json!(u.diagnostics().take(p).count()),
        "src" => json!(u.source().len()),
        "ir" => json!(u.emit_ir()),
        "eval" => match u.interpret(RUNNERS[p % 3].1) {
            Ok(s) => json!(["ok", s]),
            Err(t) => json!(["trap", t.message]),
        },
        "main" => match u.interpret_main(RUNNERS[p % 3].1, b"text") {
            Ok(s) => json!(["ok", s]),
            Err(InterpretError::Trap(t)) => json!(["trap", t.message]),
            Err(InterpretError::NoMain) => json!(["nomain"]),
            Err(InterpretError::InvalidMain) => json!(["badmain"]),
        },
        q => panic!("bad query {}", q),
    }
}

/// What a module that imports the unit sees of it
fn used(u: CompilationUnit) -> Value {
    let mut m = Modules::default();
    m.units.insert("m".into(), u.complete());
    let m = Arc::new(m);
    let src = "import m from \"m\";\nlet a : m. = m.;\nlet b = match 0 with | m. -> 0 end;\n";
    let mut root = CompilationUnit::new(src, options(true), m);
    let names: Vec<_> = src.match_indices("m.").map(|(i, _)| completions(&mut root, i + 2)).collect();
    json!(names)
}

/// Answers along histories of queries.  Several units with the same source may
/// take part in a history (the third part of a query says which one is asked).
/// Each query is also asked about a unit of its own.
fn histories(case: &Case, scripts: &[Value], accepted: bool) -> (Value, Value) {
    let mut fresh: HashMap<String, Value> = HashMap::new();
    let skipped = |q: &Value| !accepted && matches!(q[0].as_str(), Some("ir" | "eval" | "main"));
    let mut answers = Vec::new();
    for script in scripts {
        let mut units: Vec<Option<CompilationUnit>> = (0..3).map(|_| Some(case.unit(true))).collect();
        let mut of_script = Vec::new();
        for q in script.as_array().unwrap() {
            if skipped(q) {
                of_script.push(Value::Null);
                continue;
            }
            let unit = &mut units[q[2].as_u64().unwrap_or(0) as usize];
            if q[0] == "use" {
                let u = unit.take().unwrap();
                of_script.push(guarded(|| used(u)));
                *unit = Some(case.unit(true));
            } else {
                let u = unit.as_mut().unwrap();
                of_script.push(guarded(|| query(u, q)));
            }
        }
        answers.push(Value::Array(of_script));
    }
    let mut of_fresh = Vec::new();
    for script in scripts {
        let mut of_script = Vec::new();
        for q in script.as_array().unwrap() {
            if skipped(q) {
                of_script.push(Value::Null);
                continue;
            }
            let key = format!("{} {}", q[0], q[1]);
            if !fresh.contains_key(&key) {
                let mut u = case.unit(true);
                let v = if q[0] == "use" { guarded(|| used(u)) } else { guarded(|| query(&mut u, q)) };
                fresh.insert(key.clone(), v);
            }
            of_script.push(fresh[&key].clone());
        }
        of_fresh.push(Value::Array(of_script));
    }
    (Value::Array(answers), Value::Array(of_fresh))
}

fn run(case: &Value) -> Value {
    let mut out = Map::new();
    out.insert("id".into(), case["id"].clone());
    let mut built = Modules::default();
    let mods = case["mods"].as_array().unwrap();
    let (root, deps) = mods.split_last().unwrap();
    let mut plain = Modules::default();
    let want = |k: &str| case["want"].as_array().map_or(false, |w| w.iter().any(|x| x == k));
    let both = want("eval") || want("ir") || want("text") || case["inputs"].is_array();
    let mut built_ok = true;
    for m in deps {
        let unit = guarded(|| {
            for (optimize, built) in [(true, &mut built), (false, &mut plain)] {
                if optimize || both {
                    let so_far = Arc::new(Modules { units: built.units.clone(), find: found(m) });
                    let mut unit = CompilationUnit::new(m["src"].as_str().unwrap(), options(optimize), so_far);
                    for q in case["warm"].as_array().unwrap_or(&Vec::new()) {
                        query(&mut unit, q);
                    }
                    built_ok &= unit.diagnostics().all(|d| d.severity != ticc::Severity::Error);
                    built.units.insert(m["path"].as_str().unwrap().to_owned(), unit.complete());
                }
            }
            json!(0)
        });
        if unit != json!(0) {
            out.insert("module".into(), unit);
            return Value::Object(out);
        }
    }
    built.find = found(root);
    plain.find = found(root);
    let modules = Arc::new(built);
    let plain = if both { Arc::new(plain) } else { modules.clone() };
    let case_ = Case {
        src: root["src"].as_str().unwrap().to_owned(),
        modules,
        plain,
    };
    let n = case_.src.len() + 3;
    if want("front") {
        out.insert("diags".into(), guarded(|| diagnostics(&mut case_.unit(true))));
        out.insert("toks".into(), guarded(|| tokens(&mut case_.unit(true))));
    }
    if want("query") {
        // at some positions the query is the first one about its unit
        let first: HashSet<usize> = match case["first"].as_array() {
            Some(ps) => ps.iter().map(|p| p.as_u64().unwrap() as usize).collect(),
            None => HashSet::new(),
        };
        let queries: [(&str, fn(&mut CompilationUnit, usize) -> Value); 3] =
            [("def", definition), ("refs", references), ("info", info)];
        for (name, query) in queries {
            let answers = guarded(|| {
                let mut unit = case_.unit(true);
                runs(n, |p| {
                    if first.contains(&p) {
                        query(&mut case_.unit(true), p)
                    } else {
                        query(&mut unit, p)
                    }
                })
            });
            out.insert(name.into(), answers);
        }
    }
    if let Some(ps) = case["comp"].as_array() {
        let comps = ps
            .iter()
            .map(|p| {
                let p = p.as_u64().unwrap() as usize;
                json!([p, guarded(|| completions(&mut case_.unit(true), p))])
            })
            .collect();
        out.insert("comp".into(), comps);
    }
    let accepted = built_ok && {
        let d = guarded(|| diagnostics(&mut case_.unit(true)));
        d.as_array().map_or(false, |d| d.iter().all(|d| d[2] != "error"))
    };
    out.insert("accepted".into(), json!(accepted));
    if let Some(scripts) = case["scripts"].as_array() {
        let (answers, fresh) = histories(&case_, scripts, accepted);
        out.insert("answers".into(), answers);
        out.insert("fresh".into(), fresh);
    }
    if !accepted {
        return Value::Object(out);
    }
    if want("text") {
        for (name, optimize) in [("text0", false), ("text1", true)] {
            out.insert(name.into(), guarded(|| json!(case_.unit(optimize).emit_ir())));
        }
    }
    if want("ir") {
        for (name, optimize) in [("ir0", false), ("ir1", true)] {
            let r = guarded(|| {
                case_.unit(optimize).emit_ir();
                json!(["ok"])
            });
            out.insert(name.into(), r);
        }
    }
    if want("eval") {
        let mut results = Vec::new();
        for (name, runner) in RUNNERS {
            for optimize in [false, true] {
                let chosen = case["runners"].as_array().map_or(true, |rs| rs.iter().any(|r| *r == json!([name, optimize])));
                if chosen {
                    results.push(json!([name, optimize, eval(&case_, optimize, runner)]));
                }
            }
        }
        out.insert("eval".into(), Value::Array(results));
    }
    if let Some(inputs) = case["inputs"].as_array() {
        let mut results = Vec::new();
        for input in inputs {
            let bytes: Vec<u8> = input.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
            for (name, runner) in RUNNERS {
                for optimize in [false, true] {
                    results.push(json!([input, name, optimize, eval_main(&case_, optimize, runner, &bytes)]));
                }
            }
        }
        out.insert("main".into(), Value::Array(results));
    }
    Value::Object(out)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let worker = std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        for line in stdin.lock().lines() {
            let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let result = run(&case);
            let mut out = stdout.lock();
            serde_json::to_writer(&mut out, &result).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    });
    worker.unwrap().join().unwrap();
}
