mod cli;
mod corpus;
mod fix_checks;
mod gen_;
mod lint_checks;
mod mem_checks;
mod oracle;
mod parser_checks;
mod run_checks;
mod sk;
mod typed_checks;
mod util;
use util::Ctx;

#[global_allocator]
static A: mem_checks::Counting = mem_checks::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().cloned().unwrap_or_default();
    match cmd.as_str() {
        "noop" => return,
        "parse" => {
            let t = std::io::read_to_string(std::io::stdin()).unwrap();
            println!("{}", ludtwig_parser::parse(&t).debug_parse());
            return;
        }
        "worker-c13" => return mem_checks::c13_worker(&a[1..]),
        "worker-c02" => return parser_checks::c02_worker(&a[1..]),
        "worker-c03" => return parser_checks::c03_worker(&a[1..]),
        "worker-c04" => return parser_checks::c04_worker(&a[1..]),
        _ => {}
    }
    std::panic::set_hook(Box::new(|i| {
        // panics of the code under test are caught and judged; those of the harness are not hidden
        if i.location().is_some_and(|l| l.file().contains("src/") && !l.file().contains("ludtwig") && !l.file().contains("/.cargo/")) && std::env::var("LV_QUIET").is_err() {
            eprintln!("{i}");
        }
    }));
    let mut ctx = Ctx::new(&cmd);
    match cmd.as_str() {
        "C01" => parser_checks::c01(&mut ctx),
        "C02" => parser_checks::c02(&mut ctx),
        "C03" => parser_checks::c03(&mut ctx),
        "C04" => parser_checks::c04(&mut ctx),
        "C05" => parser_checks::c05(&mut ctx),
        "C06" => parser_checks::c06(&mut ctx),
        "C07" => parser_checks::c07(&mut ctx),
        "C08" => parser_checks::c08(&mut ctx),
        "C09" => parser_checks::c09(&mut ctx),
        "C10" => parser_checks::c10(&mut ctx),
        "C11" => parser_checks::c11(&mut ctx),
        "C12" => typed_checks::c12(&mut ctx),
        "C20" => { lint_checks::c20(&mut ctx); lint_checks::c20_large(&mut ctx); run_checks::odd_files(&mut ctx, false) }
        "C24" => fix_checks::c24(&mut ctx),
        "C25" => fix_checks::c25(&mut ctx),
        "C26" => fix_checks::c26(&mut ctx),
        "C27" => { lint_checks::c27(&mut ctx); lint_checks::c27_names(&mut ctx) }
        "C28" => fix_checks::c28(&mut ctx),
        "C29" => { fix_checks::c29(&mut ctx); lint_checks::c29_lines(&mut ctx) }
        "C30" => { fix_checks::c30(&mut ctx); lint_checks::c30_lines(&mut ctx) }
        "C33" => fix_checks::c33(&mut ctx),
        "C21" => run_checks::c21(&mut ctx),
        "C22" => run_checks::c22(&mut ctx),
        "C23" => { run_checks::c23(&mut ctx); run_checks::odd_files(&mut ctx, true) }
        "C36" => run_checks::c36(&mut ctx),
        "C37" => { run_checks::c37(&mut ctx); run_checks::c37_values(&mut ctx) }
        "C38" => run_checks::c38(&mut ctx),
        "C34" => fix_checks::c34(&mut ctx),
        "C35" => fix_checks::c35(&mut ctx),
        "C31" => { lint_checks::c31(&mut ctx); lint_checks::c31_large(&mut ctx) }
        "C32" => { lint_checks::c32(&mut ctx); lint_checks::c32_lines(&mut ctx) }
        "C13" => mem_checks::c13(&mut ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
