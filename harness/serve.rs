// Verification harness, compiled into dunesh only under `--cfg dune_verif`
// (src/bin.rs includes this file through the DUNE_VERIF_HARNESS environment
// variable of the build).  It reads one JSON request per line on stdin and
// writes one JSON answer per line.  It only observes: programs are parsed by
// the crate's own parser and evaluated by the crate's own evaluator in a clone
// of the environment `main` built.

use dune::{parse_script, Diagnostic, Environment, Error, Expression, SyntaxError, TokenKind};
use json::{object, JsonValue};
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::os::fd::{AsFd, AsRawFd};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

/// As json::array, which evaluates every item twice.
macro_rules! array {
    ($($x:expr),* $(,)?) => { JsonValue::Array(vec![$($x.into()),*]) };
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn int_json(tag: &str, n: i128) -> JsonValue {
    if n.abs() < 1_000_000_000 {
        array![tag, n as i64]
    } else {
        let mut limbs = JsonValue::new_array();
        let mut m = n.unsigned_abs();
        while m > 0 {
            limbs.push((m % 10_000) as u32).unwrap();
            m /= 10_000;
        }
        array!["big", if n < 0 { -1 } else { 1 }, limbs]
    }
}

fn float_json(f: f64) -> JsonValue {
    let k = f * 1024.0;
    if f.is_finite() && k.fract() == 0.0 && k.abs() < 1.0e9 && !(f == 0.0 && f.is_sign_negative()) {
        array!["flt", k as i64]
    } else {
        array!["fx", format!("{:?}", f)]
    }
}

/// A text; long ones of a certain pattern are given by their length.
fn text_json(s: &str) -> JsonValue {
    let pattern = b"0123456789abcdef";
    if s.len() >= 4096 && s.bytes().enumerate().all(|(i, b)| b == pattern[i % 16]) {
        array!["gen", s.len()]
    } else {
        array!["str", s]
    }
}

fn data_json(b: &[u8]) -> JsonValue {
    match std::str::from_utf8(b) {
        Ok(s) => text_json(s),
        Err(_) => array!["bytes", JsonValue::Array(b.iter().map(|x| (*x).into()).collect())],
    }
}

fn data_of(j: &JsonValue) -> Vec<u8> {
    match j[0].as_str().unwrap_or("") {
        "str" => j[1].as_str().unwrap_or("").as_bytes().to_vec(),
        "bytes" => j[1].members().map(|x| x.as_u8().unwrap_or(0)).collect(),
        _ => (0..j[1].as_usize().unwrap_or(0)).map(|i| b"0123456789abcdef"[i % 16]).collect(),
    }
}

/// Fills a directory: [[names, node], ...], parents before children.
fn plant(root: &Path, tree: &JsonValue) {
    for entry in tree.members() {
        let mut p = root.to_path_buf();
        for n in entry[0].members() {
            p.push(n.as_str().unwrap());
        }
        let node = &entry[1];
        match node[0].as_str().unwrap_or("") {
            "dir" => std::fs::create_dir(&p).unwrap(),
            "locked" => {
                std::fs::create_dir(&p).unwrap();
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
            }
            // A link to a directory whose name is no text.
            "odd" => {
                let to = root.parent().unwrap().join(OsStr::from_bytes(b"odd\xff"));
                std::fs::create_dir_all(&to).unwrap();
                std::os::unix::fs::symlink(to, &p).unwrap();
            }
            // A program: its name says which.
            "tool" => std::os::unix::fs::symlink(Path::new(&std::env::var("PATH").unwrap()).join("vargv"), &p).unwrap(),
            "file" => std::fs::write(&p, data_of(&node[1])).unwrap(),
            _ => std::os::unix::fs::symlink(node[1].as_str().unwrap(), &p).unwrap(),
        }
    }
}

/// Removes a directory and all in it, also what is locked.
fn clear(dir: &Path) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Ok(m) = std::fs::symlink_metadata(e.path()) {
            if m.is_dir() {
                let _ = std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(0o755));
                clear(&e.path());
            }
        }
    }
    let _ = std::fs::remove_dir_all(dir);
}

/// What is in a directory, in the same form.
fn survey(dir: &Path, names: &mut Vec<String>, out: &mut JsonValue) {
    let mut entries: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.flatten().collect(),
        Err(_) => return,
    };
    entries.sort_by_key(|e| e.file_name());
    for e in entries {
        names.push(e.file_name().to_string_lossy().to_string());
        let path: JsonValue = JsonValue::Array(names.iter().map(|n| n.as_str().into()).collect());
        let p = e.path();
        let meta = std::fs::symlink_metadata(&p).unwrap();
        if meta.file_type().is_symlink() && std::fs::read_link(&p).unwrap().ends_with("vbin/vargv") {
            out.push(array![path, array!["tool"]]).unwrap();
        } else if meta.file_type().is_symlink() && std::fs::read_link(&p).unwrap().to_str().is_none() {
            out.push(array![path, array!["odd"]]).unwrap();
        } else if meta.file_type().is_symlink() {
            out.push(array![path, array!["link", std::fs::read_link(&p).unwrap().display().to_string()]]).unwrap();
        } else if meta.is_dir() && meta.permissions().mode() & 0o777 == 0 {
            out.push(array![path, array!["locked"]]).unwrap();
        } else if meta.is_dir() {
            out.push(array![path, array!["dir"]]).unwrap();
            survey(&p, names, out);
        } else {
            out.push(array![path, array!["file", data_json(&std::fs::read(&p).unwrap_or_default())]]).unwrap();
        }
        names.pop();
    }
}

fn ast(e: &Expression) -> JsonValue {
    fn all<'a>(xs: impl IntoIterator<Item = &'a Expression>) -> JsonValue {
        JsonValue::Array(xs.into_iter().map(ast).collect())
    }
    match e {
        Expression::Group(x) => array!["grp", ast(x)],
        Expression::Symbol(s) => array!["sym", s.as_str()],
        Expression::Integer(n) => int_json("int", *n as i128),
        Expression::Float(f) => float_json(*f),
        Expression::Bytes(b) => array!["bytes", JsonValue::Array(b.iter().map(|x| (*x).into()).collect())],
        Expression::String(s) => text_json(s),
        Expression::Boolean(b) => array!["bool", *b],
        Expression::List(xs) => array!["list", all(xs)],
        Expression::Map(m) => {
            let mut items = JsonValue::new_array();
            for (k, v) in m {
                items.push(array![k.as_str(), ast(v)]).unwrap();
            }
            array!["map", items]
        }
        Expression::None => array!["none"],
        Expression::Assign(n, x) => array!["asg", n.as_str(), ast(x)],
        Expression::For(n, l, b) => array!["for", n.as_str(), ast(l), ast(b)],
        Expression::If(c, t, f) => array!["if", ast(c), ast(t), ast(f)],
        Expression::Apply(f, xs) => array!["app", ast(f), all(xs)],
        Expression::Lambda(p, b, _) => array!["lam", p.as_str(), ast(b)],
        Expression::Macro(p, b) => array!["mac", p.as_str(), ast(b)],
        Expression::Do(xs) => array!["do", all(xs)],
        Expression::Builtin(b) => array!["bi", b.name.as_str()],
        Expression::Quote(x) => array!["quo", ast(x)],
        #[allow(unreachable_patterns)]
        _ => array!["other", format!("{:?}", e)],
    }
}

fn err_kind(e: &Error) -> &'static str {
    match e {
        Error::CannotApply(..) => "cannot-apply",
        Error::SymbolNotDefined(..) => "symbol-not-defined",
        Error::CommandFailed(..) => "command-failed",
        Error::ForNonList(..) => "for-non-list",
        Error::RecursionDepth(..) => "recursion-depth",
        Error::PermissionDenied(..) => "permission-denied",
        Error::ProgramNotFound(..) => "program-not-found",
        Error::SyntaxError(..) => "syntax-error",
        Error::CustomError(..) => "custom-error",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}

fn span(s: &detached_str::StrSlice) -> JsonValue {
    array![s.start(), s.end()]
}

fn syn(e: &SyntaxError) -> JsonValue {
    match e {
        SyntaxError::TokenizationErrors(ds) => {
            array!["tok", JsonValue::Array(ds.iter().map(diag).collect())]
        }
        SyntaxError::Expected { input, .. } => array!["exp", span(input)],
        SyntaxError::ExpectedChar { at, .. } => array!["chr", at.as_ref().map(span).unwrap_or(JsonValue::Array(vec![]))],
        SyntaxError::NomError { at, cause, .. } => array![
            "nom",
            at.as_ref().map(span).unwrap_or(JsonValue::Array(vec![])),
            cause.as_ref().map(|c| syn(c)).unwrap_or(JsonValue::Array(vec![]))
        ],
        SyntaxError::InternalError => array!["int"],
        #[allow(unreachable_patterns)]
        _ => array!["other"],
    }
}

fn diag(d: &Diagnostic) -> JsonValue {
    match d {
        Diagnostic::Valid => array!["ok"],
        Diagnostic::InvalidStringEscapes(r) => {
            array!["esc", JsonValue::Array(r.iter().map(span).collect())]
        }
        Diagnostic::InvalidNumber(s) => array!["num", JsonValue::Array(vec![span(s)])],
        Diagnostic::IllegalChar(s) => array!["chr", JsonValue::Array(vec![span(s)])],
        Diagnostic::NotTokenized(s) => array!["rest", JsonValue::Array(vec![span(s)])],
        #[allow(unreachable_patterns)]
        _ => array!["other"],
    }
}

fn kind_name(k: TokenKind) -> &'static str {
    match k {
        TokenKind::Punctuation => "punct",
        TokenKind::Operator => "op",
        TokenKind::Keyword => "kw",
        TokenKind::StringLiteral => "str",
        TokenKind::IntegerLiteral => "int",
        TokenKind::FloatLiteral => "flt",
        TokenKind::BooleanLiteral => "bool",
        TokenKind::Symbol => "sym",
        TokenKind::Whitespace => "ws",
        TokenKind::Comment => "com",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}

fn parse(text: &str) -> Result<Expression, Error> {
    parse_script(text).map_err(|e| match e {
        nom::Err::Error(e) | nom::Err::Failure(e) => Error::SyntaxError(text.into(), e),
        nom::Err::Incomplete(_) => Error::SyntaxError(text.into(), SyntaxError::InternalError),
    })
}

/// Runs `f`; a panic comes back as Err(message).
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.lock().unwrap().clear();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.lock().unwrap().clone())
}

fn do_lex(text: &str) -> JsonValue {
    let (tokens, diags) = dune::tokenize(text);
    object! {
        "toks": JsonValue::Array(tokens.iter().map(|t| array![kind_name(t.kind), t.range.start(), t.range.end()]).collect()),
        "diags": JsonValue::Array(diags.iter().map(diag).collect()),
    }
}

fn do_parse(text: &str) -> JsonValue {
    match parse(text) {
        Ok(e) => object! { "r": "ok", "ast": ast(&e) },
        Err(e) => {
            let s = match &e {
                Error::SyntaxError(_, s) => syn(s),
                _ => array!["other"],
            };
            match guarded(|| format!("{}", e)) {
                Ok(d) => object! { "r": "err", "syn": s, "display": d },
                Err(p) => object! { "r": "err", "syn": s, "panic": p },
            }
        }
    }
}

struct Capture {
    file: std::fs::File,
}

impl Capture {
    fn take(&mut self) -> String {
        let _ = std::io::stdout().flush();
        let mut bytes = vec![];
        self.file.seek(SeekFrom::Start(0)).unwrap();
        self.file.read_to_end(&mut bytes).unwrap();
        self.file.set_len(0).unwrap();
        self.file.seek(SeekFrom::Start(0)).unwrap();
        String::from_utf8_lossy(&bytes).to_string()
    }
}

/// One session: the given programs run one after another in one environment.
fn do_session(req: &JsonValue, base: &Environment, home: &Path, cap: &mut Capture) -> JsonValue {
    let _ = std::env::set_current_dir(home);
    if let Ok(e) = parse("log@set-level 0") {
        let _ = guarded(|| e.eval(&mut base.clone()));
    }
    cap.take();
    let mut env = base.clone();
    let root = req["root"].as_str().map(|name| home.join(name));
    if let Some(root) = &root {
        clear(root);
        std::fs::create_dir(root).unwrap();
        plant(root, &req["tree"]);
        std::env::set_current_dir(root).unwrap();
    }
    let cwd = std::env::current_dir().unwrap();
    env.set_cwd(cwd.to_str().unwrap());
    let start = env.bindings.clone();
    let show = req["show"].as_bool().unwrap_or(false);
    let msg = req["msg"].as_bool().unwrap_or(false);
    let mut prev = start.clone();
    let mut steps = JsonValue::new_array();
    for text in req["progs"].members() {
        let text = text.as_str().unwrap_or("");
        let parsed = match guarded(|| parse(text)) {
            Ok(Ok(e)) => Some(e),
            Ok(Err(_)) => None,
            Err(p) => {
                steps.push(object! { "r": array!["panic", p], "out": cap.take() }).unwrap();
                break;
            }
        };
        let mut step = JsonValue::new_object();
        match parsed {
            None => {
                step["r"] = array!["syn"];
            }
            Some(e) => {
                if req["ast"].as_bool().unwrap_or(false) {
                    step["ast"] = ast(&e);
                }
                let r = guarded(|| e.eval(&mut env));
                let out = cap.take();
                step["out"] = out.into();
                match r {
                    Ok(Ok(v)) => {
                        step["r"] = array!["ok", ast(&v)];
                        if show {
                            match guarded(|| (format!("{}", v), format!("{:?}", v))) {
                                Ok((d, g)) => step["show"] = array![d, g],
                                Err(p) => step["r"] = array!["panic", p],
                            }
                        }
                    }
                    Ok(Err(e)) => {
                        step["r"] = array!["err", err_kind(&e)];
                        if show || msg {
                            match guarded(|| format!("{}", e)) {
                                Ok(d) => step["msg"] = d.into(),
                                Err(p) => step["r"] = array!["panic", p],
                            }
                        }
                    }
                    Err(p) => step["r"] = array!["panic", p],
                }
            }
        }
        // Changes of the bindings made by this program.
        let mut diff = JsonValue::new_array();
        for (k, v) in &env.bindings {
            if prev.get(k) != Some(v) {
                diff.push(array![k.as_str(), ast(v)]).unwrap();
            }
        }
        for k in prev.keys() {
            if !env.bindings.contains_key(k) {
                diff.push(array![k.as_str(), array!["undef"]]).unwrap();
            }
        }
        prev = env.bindings.clone();
        step["env"] = diff;
        if req["cwds"].as_bool().unwrap_or(false) {
            step["cwd"] = env.get_cwd().into();
            step["pcwd"] = std::env::current_dir().map(|p| p.display().to_string()).unwrap_or_default().into();
        }
        if let Some(root) = &root {
            let mut tree = JsonValue::new_array();
            survey(root, &mut vec![], &mut tree);
            step["tree"] = tree;
        }
        steps.push(step).unwrap();
    }
    if let Some(root) = &root {
        let _ = std::env::set_current_dir(home);
        clear(root);
    }
    object! { "steps": steps, "cwd": cwd.display().to_string() }
}

pub fn serve(env: &mut Environment) {
    if std::env::var_os("DUNE_VERIF_SERVE").is_none() {
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        let what = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{} @ {}", what, at);
        }
    }));
    let home = std::env::current_dir().unwrap();
    let mut answers = std::fs::File::from(std::io::stdout().as_fd().try_clone_to_owned().unwrap());
    let capture = std::fs::OpenOptions::new()
        .read(true)
        .append(true)
        .create(true)
        .open(std::env::var_os("DUNE_VERIF_SERVE").unwrap())
        .unwrap();
    unsafe { dup2(capture.as_raw_fd(), 1) };
    let mut cap = Capture { file: capture };
    // Programs launched by the shell must not read the request stream.
    let requests = std::fs::File::from(std::io::stdin().as_fd().try_clone_to_owned().unwrap());
    let null = std::fs::File::open("/dev/null").unwrap();
    unsafe { dup2(null.as_raw_fd(), 0) };
    for line in std::io::BufReader::new(requests).lines() {
        let line = line.unwrap();
        let req = json::parse(&line).unwrap();
        let text = req["text"].as_str().unwrap_or("").to_string();
        let answer = match req["op"].as_str().unwrap_or("") {
            "lex" => guarded(|| do_lex(&text)),
            "parse" => guarded(|| do_parse(&text)),
            "hl" => guarded(|| object! { "hl": super::syntax_highlight(&text) }),
            "session" => guarded(|| do_session(&req, env, &home, &mut cap)),
            "base" => guarded(|| {
                let mut m = JsonValue::new_array();
                for (k, v) in &env.bindings {
                    m.push(array![k.as_str(), ast(v)]).unwrap();
                }
                object! { "base": m }
            }),
            _ => Ok(object! { "bad": "op" }),
        };
        let answer = match answer {
            Ok(a) => a,
            Err(p) => object! { "panic": p },
        };
        let mut text = answer.dump();
        text.push('\n');
        answers.write_all(text.as_bytes()).unwrap();
    }
    std::process::exit(0);
}
