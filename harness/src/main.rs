//! Native replay: `replay <harness> <bytes separated by commas>`
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in fxh::all() {
            println!("{n}");
        }
        return;
    }
    let bytes = a.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    fxh::nd::load(bytes);
    for (n, f) in fxh::all() {
        if n == a[1] {
            f();
            println!("REPLAY-OK");
            return;
        }
    }
    println!("NO-SUCH-HARNESS");
    std::process::exit(4);
}
