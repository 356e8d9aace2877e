//! C01: index retrieval returns exactly the stored element.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;

fn build(
    el: &[Vec<u8>],
    dim: usize,
    elem_bits: usize,
    p: usize,
) -> Result<(Shard, CommonParams), String> {
    let s = Shard::from_base64_strings(&b64s(el), dim, el.len(), elem_bits, p)
        .map_err(|e| format!("build m={} e={} p={}: {}", el.len(), elem_bits, p, e))?;
    let cp = CommonParams::from(s.get_base_params());
    Ok((s, cp))
}

/// Coin tapes explored for shapes too large to enumerate all outcomes.
fn tape(kind: usize, n: usize) -> Option<Vec<u32>> {
    let w = coin_words();
    Some(match kind {
        0 => vec![w[1]; n],
        1 => vec![w[2]; n],
        2 => vec![w[0]; n],
        3 => (0..n).map(|i| w[1 + i % 2]).collect(),
        4 => (0..n).map(|i| w[(i + 1) % 3]).collect(),
        _ => return None,
    })
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("all 3^(dim+m) coin outcomes for dim<=2, m<=3 (4 thorough), plaintext bits 1..11, element bytes from {00,01,5a,80,ff}^m, every row");
    pl.bound("dense grid: element bits x plaintext bits 1..15 x heights with 5 extreme coin tapes plus one pseudo-random, all rows of small databases");
    pl.bound("scale: single shapes beyond 2^8, 2^16 and 2^24 bits, 2^16 columns and 2^16 rows, extreme and pseudo-random coins, boundary rows");
    pl.bound("noise boundary: maximal admissible height for every plaintext size 7..15, all-ones data, all coins +1 / -1");
    pl.assume("the environment's answers to the OS generator are those of the harness tape; small shapes are enumerated completely, large shapes at extreme coin outcomes");

    // --- all coin outcomes, tiny shapes
    let mmax = if th { 4 } else { 3 };
    for dim in 1..=2usize {
        for m in 1..=mmax {
            for p in [1usize, 2, 3, 4, 5, 7, 8, 11] {
                if !noise_ok(m, p) {
                    continue;
                }
                pl.case(format!("all-coins dim={} m={} p={}", dim, m, p), move |c| {
          let alpha: &[u8] = if m <= 2 {
            &[0x00, 0x01, 0x5a, 0x80, 0xff]
          } else if m == 3 {
            &[0x00, 0x5a, 0xff]
          } else {
            &[0xff]
          };
          let salt = (dim * 100 + m * 10 + p) as u64;
          let mut dbs = vec![];
          c.explore(|c, ch| {
            let idx = (0..m).map(|_| ch.choose(alpha.len())).collect::<Vec<_>>();
            dbs.push(idx);
            c.steps(0);
            Ok(())
          })?;
          for idx in dbs {
            let el: Vec<Vec<u8>> = idx.iter().map(|&i| vec![alpha[i]]).collect();
            let env = Env::install(&[], &[]);
            getrandom::set_thread_stream(salt ^ h64(&idx));
            let (s, cp) = build(&el, dim, 8, p)?;
            c.explore(|c, ch| {
              let row = ch.choose(m);
              let t: Vec<usize> =
                (0..dim + m).map(|_| ch.choose(3)).collect();
              env.set_words(&coins(&t), None);
              index_roundtrip(c, &s, &cp, &el[row], 8, p, row).map_err(|e| {
                format!("data {:?} coins {:?}: {}", el, t, e)
              })
            })?;
          }
          c.sample(format!(
            "every coin outcome and row of every {}-row database over {} byte values decoded to the stored byte",
            m,
            alpha.len()
          ));
          Ok(())
        });
            }
        }
    }

    // --- dense shape grid
    let emax = if th { 136 } else { 80 };
    let mut e = 1usize;
    while e <= emax {
        let elem_bits = e;
        pl.case(format!("grid e={}", elem_bits), move |c| {
            c.explore(|c, ch| {
                let p = 1 + ch.choose(15);
                let ms = [1usize, 2, 3, 7];
                let m = *ch.pick(&ms);
                if !noise_ok(m, p) {
                    return Ok(());
                }
                let kind = ch.choose(KINDS);
                let el = elements(kind, m, elem_bits);
                let dim = 1 + (elem_bits + p) % 3;
                let env = Env::install(&[], &[]);
                getrandom::set_thread_stream(h64(&(elem_bits, p, m, kind)));
                let (s, cp) = build(&el, dim, elem_bits, p)?;
                for k in 0..6 {
                    for row in 0..m {
                        match tape(k, dim + m) {
                            Some(t) => env.set_words(&t, None),
                            None => env.set_words(&[], None),
                        }
                        index_roundtrip(c, &s, &cp, &el[row], elem_bits, p, row).map_err(|x| {
                            format!(
                                "m={} dim={} e={} p={} content={} tape={}: {}",
                                m, dim, elem_bits, p, kind, k, x
                            )
                        })?;
                    }
                }
                Ok(())
            })
        });
        e += if th || e < 40 { 1 } else { 3 };
    }

    // --- noise boundary
    for p in 7..=15usize {
        let m = max_height(p);
        pl.case(format!("noise-boundary p={} m={}", p, m), move |c| {
      let elem_bits = 2 * p + 3;
      for kind in [1usize, 0] {
        let el = elements(kind, m, elem_bits);
        let env = Env::install(&[], &[]);
        let (s, cp) = build(&el, 1, elem_bits, p)?;
        for k in 0..5 {
          let mut rows = vec![0, m / 2, m - 1];
          rows.dedup();
          for row in rows {
            env.set_words(&tape(k, m + 1).unwrap(), None);
            index_roundtrip(c, &s, &cp, &el[row], elem_bits, p, row)
              .map_err(|x| format!("content={} tape={}: {}", kind, k, x))?;
          }
        }
      }
      c.sample(format!(
        "m={} is the largest height whose worst-case noise is below half the scaling factor for {} bits",
        m, p
      ));
      Ok(())
    });
    }

    // --- larger shapes, all rows
    let shapes: &[(usize, usize, usize, usize)] = &[
        (64, 8, 256, 10),
        (257, 16, 40, 9),
        (1024, 4, 24, 10),
        (100, 128, 8192, 12),
        (31, 512, 100, 11),
    ];
    for &(m, dim, elem_bits, p) in shapes {
        pl.case(
            format!("large m={} dim={} e={} p={}", m, dim, elem_bits, p),
            move |c| {
                let el = elements(0, m, elem_bits);
                let env = Env::install(&[], &[]);
                let (s, cp) = build(&el, dim, elem_bits, p)?;
                for row in 0..m {
                    env.set_words(&[], None);
                    index_roundtrip(c, &s, &cp, &el[row], elem_bits, p, row)?;
                }
                Ok(())
            },
        );
    }
    // --- beyond the sizes at which a narrower integer or a float would wrap:
    // more than 2^8, 2^16 and 2^24 bits, columns and rows
    let huge: &[(usize, usize, usize, usize)] = &[
        (2, 1, 300, 1),
        (3, 2, 70_000, 1),
        (2, 1, 65_536 * 3 + 5, 3),
        (2, 300, 65_539, 15),
        (1, 1, 65_600 * 14 + 1, 14),
        (1, 1, (1 << 24) + 57, 15),
        (1, 2, (1 << 24) + 8191, 13),
        // quotients of element and plaintext bits next to whole numbers
        (1, 1, 15 * (1 << 21) + 1, 15),
        (1, 1, 15 * (1 << 21) - 1, 15),
        (1, 1, 8 * (1 << 21) + 1, 8),
        (70_003, 1, 8, 7),
        (66_000, 2, 19, 5),
        (1, 70_000, 9, 9),
        (3, 66_000, 17, 12),
    ];
    for &(m, dim, elem_bits, p) in huge {
        if !noise_ok(m, p) {
            panic!("harness: inadmissible scale case");
        }
        pl.case(
            format!("scale m={} dim={} e={} p={}", m, dim, elem_bits, p),
            move |c| {
                let el = elements(0, m, elem_bits);
                let env = Env::install(&[], &[]);
                let (s, cp) = build(&el, dim, elem_bits, p)?;
                let rows: Vec<usize> = if m <= 3 {
                    (0..m).collect()
                } else {
                    vec![0, 255, 256, 4463, 65_534, 65_535, 65_536, m - 1]
                };
                for row in rows {
                    for k in [0usize, 5] {
                        env.set_words(&tape(k, dim + m).unwrap_or_default(), None);
                        index_roundtrip(c, &s, &cp, &el[row], elem_bits, p, row)?;
                    }
                }
                Ok(())
            },
        );
    }
    // --- the JSON file constructor serves the same content
    pl.case("json-file", move |c| {
        let dir = scratch("c01")?;
        for m in [1usize, 2, 5, 17] {
            for (elem_bits, p) in [(8usize, 8usize), (40, 10), (72, 7)] {
                let el = elements(0, m, elem_bits);
                let f = format!("{}/db-{}-{}.json", dir.path, m, elem_bits);
                std::fs::write(&f, serde_json::to_string(&b64s(&el)).unwrap())
                    .map_err(|e| e.to_string())?;
                let s = Shard::from_json_file(&f, 3, m, elem_bits, p)
                    .map_err(|e| format!("from_json_file: {}", e))?;
                let cp = CommonParams::from(s.get_base_params());
                for row in 0..m {
                    index_roundtrip(c, &s, &cp, &el[row], elem_bits, p, row)?;
                }
            }
        }
        Ok(())
    });
}
