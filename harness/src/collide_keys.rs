//! Genuine hash collisions under the seed `SEED`, found by exhaustive search (SipHash-2-4-128; one search of about
//! 2^36 hashes and one birthday search over 2^29 keys).
/// plain keys whose 32-bit signature comes out as the reserved value 0
pub const ZERO_USER: &[&str] = &["1hn33k", "lcdyrk2", "ko1m1p4", "8itwgt5", "htmm92a", "9ggg4fb", "63xvvmc", "9g3nhah", "k8zbjqq", "wotcb0r", "6bdinss", "s1bo1xt", "cy8fcdv", "zfy321w", "ej3adjw", "eq2whmw", "mlqox0x", "8p4cbcx", "0or5zrx", "092ekoy"];
/// a plain key with the same row and signature as the fallback signature of one of ZERO_USER
pub const FALLBACK: &str = "nomdhi3";
/// pairs of plain keys equal in shard selector, row and signature
pub const PAIRS54: &[(&str, &str)] = &[("leydd", "bwp5n2"), ("ej1wd", "790981"), ("ev5gl2", "ydjtv3"), ("yzo1s6", "evox67"), ("ti2n83", "hfor86"), ("ayoon5", "z6lxf7"), ("us58o3", "7n7xv4"), ("rupxg3", "a7xq67"), ("n59rk4", "1s1nk8"), ("by9oq5", "5l02l8"), ("w6vel", "st3vy"), ("8tdcx", "j1ce96"), ("a2eq33", "0hl5k6")];
/// pairs of plain keys equal in row and signature
pub const PAIRS38: &[(&str, &str)] = &[("3saq", "8dkt1"), ("axp61", "rmua2"), ("uvaf", "09oa1"), ("mjmg", "mo5d2"), ("ufod", "gxlx1"), ("181c1", "8m8g2"), ("u3jt", "zs2x"), ("6cu3", "r0692"), ("g0w9", "8aoe2"), ("5l4n", "sxp81"), ("xwdh", "nse02"), ("ros1", "p3t6"), ("albm", "gpe52"), ("ckoc", "b0do1"), ("61ca", "21kf1"), ("q7w71", "6q0m1")];
/// names of lists and queues whose own entry has the reserved signature
pub const ZERO_LIST: &[&str] = &["wnihlr2", "lhjsoo4"];
pub const ZERO_QUEUE: &[&str] = &["oclcrj", "69vq432"];
/// items of the list "L" whose entry has the reserved signature
pub const ZERO_ITEM_L: &[&str] = &["p1b9lk6", "37dvy37", "7tvya58", "u74y2u8", "n1g8lfb", "ct6hr1e"];
/// queues and lists whose first element's (chain's) entry has the reserved signature
pub const ZERO_ELEM_QUEUE: &[&str] = &["nlv0po2", "53i2r35"];
pub const ZERO_CHAIN_LIST: &[&str] = &["l5a1wb1", "k7tkad6"];
