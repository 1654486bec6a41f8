use mon::run::main_run;
#[allow(unused_imports)]
use mon::suites::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let suite = args
        .iter()
        .position(|a| a == "--suite")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    match suite.as_str() {
        #[cfg(feature = "vecs")]
        "vec" => main_run("vec", 1, vecs::vec),
        #[cfg(feature = "vecs")]
        "small" => main_run("small", 1, vecs::small),
        #[cfg(feature = "vecs")]
        "panics" => main_run("panics", 1, vecs::panics),
        #[cfg(feature = "vecs")]
        "oom" => main_run("oom", 1, vecs::oom),
        #[cfg(feature = "vecs")]
        "affinity" => main_run("affinity", 9, vecs::affinity),
        #[cfg(feature = "strings")]
        "string" => main_run("string", 1, strings::string),
        #[cfg(feature = "strings")]
        "string-panics" => main_run("string-panics", 1, strings::panics),
        #[cfg(feature = "strings")]
        "string-oom" => main_run("string-oom", 1, strings::oom),
        #[cfg(feature = "strings")]
        "string-affinity" => main_run("string-affinity", 9, strings::affinity),
        #[cfg(feature = "handles")]
        "rc" => main_run("rc", 1, handles::rc),
        #[cfg(feature = "handles")]
        "arc" => main_run("arc", 1, handles::arc),
        #[cfg(feature = "handles")]
        "urc" => main_run("urc", 1, handles::urc),
        #[cfg(feature = "handles")]
        "handle-panics" => main_run("handle-panics", 1, handles::panics),
        #[cfg(feature = "handles")]
        "handle-oom" => main_run("handle-oom", 1, handles::oom),
        #[cfg(feature = "handles")]
        "handle-affinity" => main_run("handle-affinity", 9, handles::affinity),
        #[cfg(feature = "mt")]
        "arc-mt" => main_run("arc-mt", 5, mt::arc),
        #[cfg(feature = "mt")]
        "urc-mt" => main_run("urc-mt", 5, mt::urc),
        #[cfg(feature = "scopes")]
        "scope" => main_run("scope", 6, scopes::nesting),
        #[cfg(feature = "scopes")]
        "routing" => main_run("routing", 5, scopes::routing),
        #[cfg(feature = "boxes")]
        "box" => main_run("box", 3, boxes::boxes),
        #[cfg(feature = "boxes")]
        "box-panics" => main_run("box-panics", 3, boxes::panics),
        #[cfg(feature = "boxes")]
        "box-oom" => main_run("box-oom", 3, boxes::oom),
        #[cfg(feature = "cmp")]
        "cmp" => main_run("cmp", 1, cmp::cmp),
        #[cfg(feature = "sends")]
        "sends" => main_run("sends", 1, sends::sends),
        s => {
            println!("HARNESS unknown suite {s:?}");
            std::process::exit(3);
        }
    }
}
