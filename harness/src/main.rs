mod build;
mod dyns;
mod engine;
mod gen;
mod geneval;
mod model;
mod mutate;
mod props;
mod refeval;
mod reify;
mod render;
mod spans;
mod src;

fn main() {
    let (p, t) = props::all();
    std::process::exit(engine::main(&p, &t));
}
