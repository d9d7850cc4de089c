mod c01;
mod c02;
mod c03;
mod c06;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod results;
mod deal;
mod exact;
mod ranges;
mod record;
mod sched;
mod table;
mod util;

fn main() {
    let a = util::Args::parse();
    util::quiet_panics();
    match a.sub.as_str() {
        "c01" => c01::run(&a),
        "c02" => c02::run(&a),
        "c03" => c03::run(&a),
        "c06" => c06::run(&a),
        "c20" => c20::run(&a),
        "c21" => c21::run(&a),
        "c22" => c22::run(&a),
        "c23" => c23::run(&a),
        "c24" => c24::run(&a),
        "c10" | "c11" | "c12" => results::run(&a, &a.sub),
        "c09" | "c13" | "c16" => sched::run(&a),
        "c19" => c19::run(&a),
        "c14" => c14::run(&a),
        "c15" => c15::run(&a),
        "c17" => c17::run(&a),
        "c18" => c18::run(&a),
        "c07" => exact::run(&a, false),
        "c08" => exact::run(&a, true),
        "c04" => ranges::c04(&a),
        "c05" => ranges::c05(&a),
        s => util::tool(&format!("unknown command {s}")),
    }
}
