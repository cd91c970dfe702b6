fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(openraft::verif_hook::run(&a[1], a[2].parse().unwrap(), a.get(3).map(|x| x == "thorough").unwrap_or(false)));
}
