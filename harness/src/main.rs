mod check;
mod exec;
mod gen;
mod meta;
mod model;
mod profiles;
mod rt;
mod sim;
mod special;
mod world;

fn main() {
    rt::init_process();
    rt::mute_stdout();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check::check(&a[1..]),
        Some("replay") => check::replay(&a[1]),
        Some("survey") => check::survey(&a[1..]),
        Some("stats") => check::stats(&a[1..]),
        _ => {
            rt::say("usage: pbt check ID --tier quick|thorough --seed N --verif DIR | replay FILE | stats ID N SEED");
            2
        }
    };
    std::process::exit(code);
}
