//! Harness over the ludtwig binary crate (appended as a module to the real main.rs by tools/build.py).
#![allow(dead_code, unused_imports, clippy::all, clippy::pedantic)]
#[macro_use]
#[path = "rt.rs"]
pub mod rt;
use crate::check::rule::{CheckResult, Rule, Severity};
use crate::check::rules::{RULE_DEFINITIONS, get_config_active_rule_definitions, get_file_active_rule_definitions};
use crate::check::verif::{ResultView, view};
use crate::check::{get_rule_context_suggestions, produce_diagnostics, run_rules};
use crate::config::*;
use crate::output::ProcessingEvent;
use crate::process::{FileContext, iteratively_apply_suggestions};
use crate::{CliContext, CliSharedData};
use ludtwig_parser::syntax::typed::*;
use ludtwig_parser::syntax::untyped::*;
use rt::*;
use std::path::PathBuf;
use std::sync::mpsc::{Receiver, channel};
use std::sync::{Arc, OnceLock};

static CONFIG: OnceLock<Config> = OnceLock::new();
pub fn default_config() -> Config {
    CONFIG.get_or_init(|| {
        use figment::providers::Format as _;
        figment::Figment::new()
            .merge(figment::providers::Toml::string(&DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION)))
            .extract().expect("default configuration")
    }).clone()
}
pub fn all_rules() -> Vec<&'static dyn Rule> { RULE_DEFINITIONS.to_vec() }
pub fn rules_named(names: &[&str]) -> Vec<&'static dyn Rule> { RULE_DEFINITIONS.iter().filter(|r| names.contains(&r.name())).copied().collect() }
pub fn cli(config: Config, rules: Vec<&'static dyn Rule>, fix: bool) -> (CliContext, Receiver<ProcessingEvent>) {
    let (tx, rx) = channel();
    (CliContext { output_tx: tx, data: Arc::new(CliSharedData { fix, inspect: false, config, rule_definitions: rules }) }, rx)
}
/// the beginning of process::run_analysis
pub fn file(text: &str, cli: &CliContext) -> FileContext {
    let parse = ludtwig_parser::parse(text);
    let root = SyntaxNode::new_root(parse.green_node);
    let file_rule_definitions = get_file_active_rule_definitions(&root, &cli.data.rule_definitions);
    FileContext { cli_context: cli.clone(), file_path: PathBuf::from("t.twig"), source_code: text.to_string(), tree_root: root, parse_errors: parse.errors, file_rule_definitions }
}
const WARM: &str = "<a id=\"x\" CLASS='y' b=>{{ a|raw }}{% block a_b %}b{% endblock %}{% if a is same as(b) and f(1) %}\n  c\n{% endif %}{% set x_y = {'a': \"b\"} %}{# ludtwig-ignore twig-logic-and #}{{ a && b }}</a>";
fn h_warmup_impl() {
    let c = default_config();
    let rules = RULE_DEFINITIONS.iter().copied().collect();
    let (cl, _rx) = cli(c, rules, false);
    let f = file(WARM, &cl);
    let r = run_rules(&f);
    let mut b = codespan_reporting::term::termcolor::Buffer::no_color();
    produce_diagnostics(&f, r, &mut b);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_warmup() { h_warmup_impl() }

#[path = "oracles.rs"]
pub mod oracles;
#[path = "files.rs"]
pub mod files;
entries! { h_file => files::run_file, h_config => files::run_config, h_create => files::run_create, h_rules => oracles::run_rules_entry, h_events => oracles::run_events, h_active => oracles::run_active }
