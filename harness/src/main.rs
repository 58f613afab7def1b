#![allow(non_snake_case)]
mod conv;
mod exp;
mod oracle;
mod p_ct;
mod p_curve;
mod p_dlp;
mod p_extra;
mod p_field;
mod p_hist;
mod p_port;
mod p_theta;
mod p_trapdoor;
mod rt;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: vmon Pxx [--replay group idx]");
        std::process::exit(2);
    }
    if a[1] == "exp" {
        exp::run();
        return;
    }
    if a[1] == "hist" {
        p_hist::child();
        return;
    }
    if a[1] == "histb" || a[1] == "histp" {
        p_hist::batch(a[1] == "histp");
        return;
    }
    let replay = if a.len() > 4 && a[2] == "--replay" { Some((a[3].clone(), a[4].parse().unwrap())) } else { None };
    let rc = match a[1].as_str() {
        "P01" => rt::run_property(
            "P01",
            "Round trips on 4 (quick) or 16 (thorough) library keys; s1,s2,b11 from {0,1,d-1,prime multiples,small,random}; half of them through bytes. A case is non-trivial when both operations ran to completion; distinct by (input, key).",
            &[],
            p_trapdoor::p01,
            "",
            replay,
        ),
        "P02" => rt::run_property(
            "P02",
            "Edge-biased inputs on the starting curve and a pool of 16 curves, public bases from the oracle in random projective scaling. One evaluation compares both output curves and all four points with an independent evaluation; distinct by (curve, input).",
            &["the oracle's field, curve and Velu code (self-tested at start)", "torsion_basis defines which d1/d2 basis is canonical; its validity is checked here and in P19"],
            p_trapdoor::p02,
            "",
            replay,
        ),
        "P03" => rt::run_property(
            "P03",
            "Library key generations in separate threads (some twice from the same generator). One evaluation checks curve, orders, independence, pairings, scalars and entropy drawn for one key; distinct by secret-key bytes.",
            &["entropy is observed through a replacement of the getrandom crate"],
            p_trapdoor::p03,
            "",
            replay,
        ),
        "P04" => rt::run_property(
            "P04",
            "Keys and outputs built from edge-biased coordinates, scalings and scalars; bytes compared with the layout, decoded values with the originals. Distinct by encoding.",
            &[],
            p_trapdoor::p04,
            "",
            replay,
        ),
        "P05" => rt::run_property(
            "P05",
            "Operands biased to 0, p, p/2, powers of two, limb patterns in plain and Montgomery form, against big integers. Distinct by operands and operation class.",
            &[],
            p_field::p05,
            "",
            replay,
        ),
        "P06" => rt::run_property(
            "P06",
            "Edge-biased operands, quotients with extreme GCD trajectories, residues and non-residues. Distinct by operands.",
            &[],
            p_field::p06,
            "",
            replay,
        ),
        "P07" => rt::run_property(
            "P07",
            "Edge-biased components incl. zero real or imaginary part, all operator forms, batch lengths around multiples of 200. Distinct by operands.",
            &[],
            p_field::p07,
            "",
            replay,
        ),
        "P08" => rt::run_property(
            "P08",
            "Elements by class: zero, real residue / non-residue, imaginary, squares, fourth powers, non-squares. Distinct by element.",
            &[],
            p_field::p08,
            "",
            replay,
        ),
        "P09" => rt::run_property(
            "P09",
            "Byte strings around p, powers of two and wrong lengths; reducing decode of 0..400 bytes; sampler draws. Distinct by string.",
            &[],
            p_field::p09,
            "",
            replay,
        ),
        "P10" => rt::run_property(
            "P10",
            "Values differing in one limb/bit/coordinate and equal values in different scalings, both masks. Distinct by operands.",
            &[],
            p_field::p10,
            "",
            replay,
        ),
        "P11" => rt::run_property(
            "P11",
            "Pairs from {infinity, 2-torsion, 4-torsion, equal, opposite, small order, generic} x scalings on 16 curves. Distinct by pair.",
            &[],
            p_curve::p11,
            "",
            replay,
        ),
        "P12" => rt::run_property(
            "P12",
            "Points as in P11; scalars 0,1,order and multiples +-1, powers of two, random, over-long, truncated. Distinct by (point, scalar).",
            &[],
            p_curve::p12,
            "",
            replay,
        ),
        "P13" => rt::run_property(
            "P13",
            "On- and off-curve coordinates incl. single-coordinate perturbations, degenerate triples, twist x; iterator prefixes; sampler draws. Distinct by coordinates.",
            &[],
            p_curve::p13,
            "",
            replay,
        ),
        "P14" => rt::run_property(
            "P14",
            "All pairs of Montgomery models of sampled curves, special and generic points. Distinct by (models, point).",
            &[],
            p_curve::p14,
            "",
            replay,
        ),
        "P15" => rt::run_property(
            "P15",
            "Prime degrees up to 3779 and smooth orders; generic, kernel, 2-torsion and neutral points. Distinct by (curve, kernel).",
            &[],
            p_curve::p15,
            "",
            replay,
        ),
        "P16" => rt::run_property(
            "P16",
            "Bases of 2-power, odd and mixed order pushed through chains. Distinct by (curve, kernel, basis).",
            &[],
            p_curve::p16,
            "",
            replay,
        ),
        "P17" => rt::run_property(
            "P17",
            "Orders 2-power / odd / mixed; pairs independent, dependent, equal, smaller order, neutral. Distinct by (pair, order).",
            &[],
            p_dlp::p17,
            "",
            replay,
        ),
        "P18" => rt::run_property(
            "P18",
            "Exponents chosen first (0,1,order-1,prime multiples,random), moduli and bases by class. Distinct by instance.",
            &[],
            p_dlp::p18,
            "",
            replay,
        ),
        "P19" => rt::run_property(
            "P19",
            "Curves from the class and their neighbours; orders by shape; orders and independence decided by the oracle modulo every prime. Distinct by (curve, order).",
            &["A = 0 excluded; up to 2 misses of the documented 30-entry table tolerated"],
            p_dlp::p19,
            "",
            replay,
        ),
        "P20" => rt::run_property(
            "P20",
            "Elements of exact, smaller, multiple and unrelated order. Distinct by (element, order).",
            &[],
            p_dlp::p20,
            "",
            replay,
        ),
        "P21" => rt::run_property(
            "P21",
            "Scalars by class (0, multiples of primes, random), generator pairs with non-unit members, sampled isogenies of 1..3 steps. Distinct by kernel.",
            &[],
            p_dlp::p21,
            "",
            replay,
        ),
        "P22" => rt::run_property(
            "P22",
            "Coprime smooth (a,b) with a+b=2^n, n=3..26, random curve, kernel basis, strategy, factor order and scaling; five evaluation points each. Distinct by (curves, strategy).",
            &["n >= 3"],
            p_theta::p22,
            "",
            replay,
        ),
        "P23" => rt::run_property(
            "P23",
            "Each operation is run once per value class under valgrind's memcheck with its secret operands marked undefined; a report is a conditional jump or a memory address computed from them. One evaluation is one run of one operation; distinct by operation, seed and class. Two leaky controls must report and a clean one must not, in the same run.",
            &["memcheck's definedness tracking, checked alive by the leaky controls", "the unoptimised build: branches the optimiser may introduce are out of scope"],
            p_ct::p23,
            "",
            replay,
        ),
        "P24" => rt::run_property(
            "P24",
            "Every relation evaluated on the linked constants; one evaluation per factor, relation, primality base and chain step.",
            &[],
            p_extra::p24,
            "",
            replay,
        ),
        "P25" => rt::run_property(
            "P25",
            "A job list over the public operations; each job alone on a new instance in a new thread, then three jobs in random order in each of eight threads sharing one instance. Distinct by (thread, call history).",
            &["sampled schedules"],
            p_extra::p25,
            "",
            replay,
        ),
        "P26" => rt::run_property(
            "P26",
            "One evaluation per point doubled: boundary and random null points and coordinates against the oracle's field, and product structures against doubling on two Kummer lines. Distinct by (null point, point).",
            &["null points with no vanishing coordinate and no vanishing dual coordinate"],
            p_theta::p26,
            "",
            replay,
        ),
        "P27" => rt::run_property(
            "P27",
            "Interpreted by Miri for the build's own target: one evaluation per operation of the interpreted program. Run with AddressSanitizer or ThreadSanitizer: one evaluation per call. Distinct by operation and result.",
            &["what the interpreter cannot execute is not judged", "operations too long for the interpreter are run with the sanitizers only"],
            p_port::p27,
            "",
            replay,
        ),
        "P28" => rt::run_property(
            "P28",
            "One evaluation per operation whose result in another build or (interpreted) for another target is compared with that of the checked native build. Distinct by operation, arguments and build.",
            &["the other targets are interpreted by Miri"],
            p_port::p28,
            "",
            replay,
        ),
        _ => 2,
    };
    std::process::exit(rc);
}
