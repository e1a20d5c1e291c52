mod table;

fn main() {
    for (prop, ty, bound, has) in table::table() {
        // Long types are printed on several lines.
        let what = format!("{ty}: {}", bound.trim_matches(['[', ']'])).split_whitespace().collect::<Vec<_>>().join(" ");
        println!("{prop}\t{}\t{what}", if has { "yes" } else { "no" });
    }
}
