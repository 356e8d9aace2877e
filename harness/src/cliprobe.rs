//! A stand-in for a program configured by flags or environment: prints the
//! configuration it was given. MC_PROBE says which reader is used.
use pi_rs_cli_utils::*;

fn main() {
    let f = match std::env::var("MC_PROBE").as_deref() {
        Ok("env") => parse_from_env(),
        Ok("exp") => {
            let v = parse_exp_to_usize(std::env::var("MC_VALUE").unwrap());
            println!("CONFIG {}", v);
            return;
        }
        Ok("bool") => {
            let v = parse_val_to_bool(std::env::var("MC_VALUE").unwrap());
            println!("CONFIG {}", v);
            return;
        }
        _ => parse_cli_flags(),
    };
    println!(
        "CONFIG m={} dim={} p={} e={} offline={} keyword={}",
        f.m, f.lwe_dim, f.plaintext_bits, f.elem_size, f.offline, f.keyword
    );
}
