#![allow(dead_code)]
mod adv;
mod agree;
/// the repository's own test constraint system (private to its tests)
#[path = "/repo/gadgets/src/test_constraint_system.rs"]
#[allow(dead_code)]
mod test_cs;
mod asvc;
mod circ;
mod cli;
mod codec;
mod entropy;
mod fsh;
mod gadg;
mod merk;
mod multi;
mod mutate;
mod replica;
mod runner;
mod schemes;
mod tapdigest;
mod util;
mod world;
use ark_bls12_381::Bls12_381 as B;
use runner::*;
use schemes::gkr::*;
use schemes::plonk::*;
use schemes::r1cs::*;
use world::*;
use zkp_curve25519::Curve25519 as C;

static C01: WorldCheck = WorldCheck { id: "C01", mode: Mode::Sound, systems: || vec![sys::<Groth16>(1)], runs: (1200, 24000), real: "zkp-groth16, zkp-r1cs, zkp-curve (bls12_381), ark serialization, rayon adaptors" };
static C02: WorldCheck = WorldCheck { id: "C02", mode: Mode::Sound, systems: || vec![sys::<Marlin>(1)], runs: (600, 12000), real: "zkp-marlin with its polynomial commitment, zkp-r1cs, ark serialization, rayon adaptors" };
static C03: WorldCheck = WorldCheck { id: "C03", mode: Mode::Sound, systems: || vec![sys::<Plonk>(1)], runs: (900, 18000), real: "zkp-plonk (composer, keygen, prover, verifier), ark-poly-commit KZG, rayon adaptors" };
static C04: WorldCheck = WorldCheck { id: "C04", mode: Mode::Sound, systems: || vec![sys::<Bp<B>>(2), sys::<Bp<C>>(5)], runs: (1000, 20000), real: "zkp-bulletproofs, zkp-curve25519, zkp-r1cs, merlin (recorded)" };
static C05: WorldCheck = WorldCheck { id: "C05", mode: Mode::Sound, systems: || vec![sys::<SpSnark<B>>(1), sys::<SpSnark<C>>(6)], runs: (800, 15000), real: "zkp-spartan (snark), zkp-curve25519, zkp-r1cs, merlin (recorded)" };
static C06: WorldCheck = WorldCheck { id: "C06", mode: Mode::Sound, systems: || vec![sys::<SpNizk<B>>(1), sys::<SpNizk<C>>(4)], runs: (1000, 20000), real: "zkp-spartan (nizk), zkp-curve25519, zkp-r1cs, merlin (recorded)" };
static C07: WorldCheck = WorldCheck { id: "C07", mode: Mode::Sound, systems: || vec![sys::<Libra<B>>(4), sys::<LibraZk<B>>(1), sys::<LibraZk<C>>(5)], runs: (400, 12000), real: "zkp-libra (plain and zero-knowledge), zkp-curve25519, merlin (recorded)" };
static C08: WorldCheck = WorldCheck { id: "C08", mode: Mode::Sound, systems: || vec![sys::<Hyrax<B>>(1), sys::<Hyrax<C>>(5)], runs: (1200, 24000), real: "zkp-hyrax, zkp-curve25519, merlin (recorded)" };

static C11W: WorldCheck = WorldCheck {
    id: "C11",
    mode: Mode::Crash,
    systems: || {
        vec![sys::<Groth16>(2), sys::<Marlin>(4), sys::<Plonk>(4), sys::<Bp<B>>(4), sys::<Bp<C>>(4), sys::<SpSnark<B>>(2), sys::<SpSnark<C>>(4), sys::<SpNizk<B>>(2), sys::<SpNizk<C>>(4),
             sys::<Libra<B>>(3), sys::<LibraZk<B>>(2), sys::<LibraZk<C>>(4), sys::<Hyrax<B>>(2), sys::<Hyrax<C>>(4)]
    },
    runs: (0, 0),
    real: "the verifiers and decoders of zkp-groth16, zkp-marlin, zkp-plonk, zkp-bulletproofs, zkp-spartan, zkp-libra, zkp-hyrax",
};
static C11: multi::Multi = multi::Multi {
    id: "C11",
    runs: (1200, 24000),
    parts: || vec![("verifiers", 8, Box::new(Wc(&C11W))), ("asvc", 1, Box::new(asvc::Asvc(true))), ("merkle", 1, Box::new(merk::Merk(true)))],
    about: "one run = one deployment whose network and senders deliver hostile bytes, statements and messages; every decode and verification is judged (it must end in a value or an error); distinct = different execution traces",
};

static C16: gadg::Gadg = gadg::Gadg { id: "C16", fam: gadg::Fam::Arith, runs: (5000, 200000) };
static C17: gadg::Gadg = gadg::Gadg { id: "C17", fam: gadg::Fam::Hash, runs: (400, 12000) };
static C18: multi::Multi = multi::Multi {
    id: "C18",
    runs: (3000, 60000),
    parts: || vec![("circuit", 1, Box::new(gadg::Gadg { id: "C18", fam: gadg::Fam::Tree, runs: (0, 0) })), ("native", 8, Box::new(merk::Merk(false)))],
    about: "one run = one membership circuit attacked by Byzantine provers, or one tree server with light clients over a hostile network; distinct = different execution traces",
};

pub fn checks() -> Vec<&'static dyn Check> {
    vec![&C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08, &asvc::Asvc(false), &codec::Store, &C11, &replica::Replicas, &C16, &C17, &C18, &agree::Agree, &agree::Faults, &entropy::Entropy, &fsh::Transcripts, &cli::Cli]
}

fn main() {
    util::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let find = |id: &str| checks().into_iter().find(|c| c.id() == id);
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match get(1).as_str() {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            match find(&get(2)) {
                Some(c) => parent(c, seed, tier(&get(3))),
                None => 2,
            }
        }
        "worker" => {
            match find(&get(2)) {
                Some(c) => {
                    // deep recursion must not be what decides a run
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn({let a = a.clone(); move || {let get = |i: usize| a.get(i).cloned().unwrap_or_default(); let n = |i: usize| get(i).parse::<u64>().unwrap_or(0);
                            worker(c, n(4), tier(&get(3)), n(5), n(6), n(7), get(8).parse().unwrap_or(60.0));
                        }})
                        .unwrap()
                        .join()
                        .map(|_| 0)
                        .unwrap_or(3)
                }
                None => 2,
            }
        }
        "serve" => {
            replica::serve();
            0
        }
        "replay" => replay(&checks(), &get(2)),
        _ => {
            eprintln!("usage: dst check ID quick|thorough | dst replay FILE");
            2
        }
    };
    std::process::exit(code);
}
