//! Groups for SRP: those of the crate and others.

use ::srp::groups;
use ::srp::types::SrpGroup;
use num_bigint::BigUint;

pub const CUSTOM: &[(u32, u8, &str)] = &[
    (96, 29, "b27753670b1aab725583ee0f"),
    (105, 5, "11363351ad901bdd70a79a01c27"),
    (120, 5, "bedb1ac9235d138d81664d55a7bd27"),
    (121, 5, "13be0b47ecfd4c6c03ab192c1686d6f"),
    (127, 5, "7da8be410da8b6861d080a0de83f6fe7"),
    (128, 5, "85f2f802f3628c519276f08697e9f397"),
    (129, 2, "16a43784d0ea47c8bcbc67e633800bc1b"),
    (136, 5, "d4c03aa0abe022e328c15a25ce5433db87"),
    (160, 2, "b2c088352179b71ffa176eb50476dc3055d8a3db"),
    (255, 2, "4be3423a697aa1a8fcffc7e0673595e43e4d9326a91d93efde496a9927863bf3"),
    (256, 2, "b1734568eda012796708bbff7a8f29302c2a13b7ab2da70840eef50dfc9465b3"),
    (257, 7, "148c9bf9b7270dd82950ba75868a564f699c4170adb9ee8455df838c6971212af"),
    (320, 11, "9f3760e95c1615b070c6118e5e135c2f3e7ddb5afd62d10a0928a910b0ea58c8f096c56859d1237f"),
    (512, 2, "b55469a343ebc4743eee60cfc9cc513a3db89f00b44b377aa04e71ff5b72e25762129a7d5d30ddd9c252690bcf35bb5602ffd49c2616f35b449caf34cbc798c3"),
];

pub fn custom(i: usize) -> SrpGroup {
    let (_, g, n) = CUSTOM[i % CUSTOM.len()];
    SrpGroup { n: BigUint::parse_bytes(n.as_bytes(), 16).unwrap(), g: BigUint::from(g) }
}

pub fn builtin(bits: i64) -> SrpGroup {
    match bits {
        1024 => groups::G_1024.clone(),
        1536 => groups::G_1536.clone(),
        2048 => groups::G_2048.clone(),
        3072 => groups::G_3072.clone(),
        4096 => groups::G_4096.clone(),
        6144 => groups::G_6144.clone(),
        _ => groups::G_8192.clone(),
    }
}
