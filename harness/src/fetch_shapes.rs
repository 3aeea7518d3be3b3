// Written by bin/gen_fetch.py.
use super::*;

#[rustfmt::skip]
pub fn set(id: usize, op: Act, src: &'static ResourceSet) -> Done {
    match id {
        1 => act!(set, op, src, Read<'static, T1>),
        2 => act!(set, op, src, Write<'static, T1>),
        3 => act!(set, op, src, Read<'static, T2>),
        4 => act!(set, op, src, Write<'static, T2>),
        5 => act!(set, op, src, Write<'static, T3>),
        6 => act!(set, op, src, NoneS),
        7 => act!(set, op, src, NoneS),
        8 => act!(set, op, src, (Read<'static, T1>,)),
        9 => act!(set, op, src, (Write<'static, T2>,)),
        10 => act!(set, op, src, (NoneS,)),
        11 => act!(set, op, src, (NoneS,)),
        12 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,)),
        13 => act!(set, op, src, (Read<'static, T1>,Write<'static, T1>,)),
        14 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,)),
        15 => act!(set, op, src, (Read<'static, T1>,Write<'static, T2>,)),
        16 => act!(set, op, src, (Read<'static, T1>,Write<'static, T3>,)),
        17 => act!(set, op, src, (Read<'static, T1>,NoneS,)),
        18 => act!(set, op, src, (Read<'static, T1>,NoneS,)),
        19 => act!(set, op, src, (Write<'static, T1>,Read<'static, T1>,)),
        20 => act!(set, op, src, (Write<'static, T1>,Write<'static, T1>,)),
        21 => act!(set, op, src, (Write<'static, T1>,Read<'static, T2>,)),
        22 => act!(set, op, src, (Write<'static, T1>,Write<'static, T2>,)),
        23 => act!(set, op, src, (Write<'static, T1>,Write<'static, T3>,)),
        24 => act!(set, op, src, (Write<'static, T1>,NoneS,)),
        25 => act!(set, op, src, (Write<'static, T1>,NoneS,)),
        26 => act!(set, op, src, (Read<'static, T2>,Read<'static, T1>,)),
        27 => act!(set, op, src, (Read<'static, T2>,Write<'static, T1>,)),
        28 => act!(set, op, src, (Read<'static, T2>,Read<'static, T2>,)),
        29 => act!(set, op, src, (Read<'static, T2>,Write<'static, T2>,)),
        30 => act!(set, op, src, (Read<'static, T2>,Write<'static, T3>,)),
        31 => act!(set, op, src, (Read<'static, T2>,NoneS,)),
        32 => act!(set, op, src, (Read<'static, T2>,NoneS,)),
        33 => act!(set, op, src, (Write<'static, T2>,Read<'static, T1>,)),
        34 => act!(set, op, src, (Write<'static, T2>,Write<'static, T1>,)),
        35 => act!(set, op, src, (Write<'static, T2>,Read<'static, T2>,)),
        36 => act!(set, op, src, (Write<'static, T2>,Write<'static, T2>,)),
        37 => act!(set, op, src, (Write<'static, T2>,Write<'static, T3>,)),
        38 => act!(set, op, src, (Write<'static, T2>,NoneS,)),
        39 => act!(set, op, src, (Write<'static, T2>,NoneS,)),
        40 => act!(set, op, src, (Write<'static, T3>,Read<'static, T1>,)),
        41 => act!(set, op, src, (Write<'static, T3>,Write<'static, T1>,)),
        42 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,)),
        43 => act!(set, op, src, (Write<'static, T3>,Write<'static, T2>,)),
        44 => act!(set, op, src, (Write<'static, T3>,Write<'static, T3>,)),
        45 => act!(set, op, src, (Write<'static, T3>,NoneS,)),
        46 => act!(set, op, src, (Write<'static, T3>,NoneS,)),
        47 => act!(set, op, src, (NoneS,Read<'static, T1>,)),
        48 => act!(set, op, src, (NoneS,Write<'static, T1>,)),
        49 => act!(set, op, src, (NoneS,Read<'static, T2>,)),
        50 => act!(set, op, src, (NoneS,Write<'static, T2>,)),
        51 => act!(set, op, src, (NoneS,Write<'static, T3>,)),
        52 => act!(set, op, src, (NoneS,NoneS,)),
        53 => act!(set, op, src, (NoneS,NoneS,)),
        54 => act!(set, op, src, (NoneS,Read<'static, T1>,)),
        55 => act!(set, op, src, (NoneS,Write<'static, T1>,)),
        56 => act!(set, op, src, (NoneS,Read<'static, T2>,)),
        57 => act!(set, op, src, (NoneS,Write<'static, T2>,)),
        58 => act!(set, op, src, (NoneS,Write<'static, T3>,)),
        59 => act!(set, op, src, (NoneS,NoneS,)),
        60 => act!(set, op, src, (NoneS,NoneS,)),
        61 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        62 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,)),
        63 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,Write<'static, T1>,)),
        64 => act!(set, op, src, (Write<'static, T1>,Read<'static, T1>,Read<'static, T1>,)),
        65 => act!(set, op, src, (Read<'static, T1>,Write<'static, T1>,Read<'static, T1>,)),
        66 => act!(set, op, src, (Write<'static, T1>,Write<'static, T2>,Write<'static, T3>,)),
        67 => act!(set, op, src, (Write<'static, T1>,Read<'static, T2>,Write<'static, T1>,)),
        68 => act!(set, op, src, (Read<'static, T2>,NoneS,Write<'static, T2>,)),
        69 => act!(set, op, src, (NoneS,NoneS,Write<'static, T2>,)),
        70 => act!(set, op, src, (Write<'static, T2>,NoneS,Read<'static, T2>,)),
        71 => act!(set, op, src, (NoneS,Write<'static, T1>,NoneS,)),
        72 => act!(set, op, src, (Write<'static, T1>,NoneS,Write<'static, T1>,)),
        73 => act!(set, op, src, (Write<'static, T3>,Read<'static, T1>,Write<'static, T3>,)),
        74 => act!(set, op, src, (Write<'static, T3>,Write<'static, T2>,Read<'static, T2>,)),
        75 => act!(set, op, src, (Read<'static, T2>,Write<'static, T1>,Read<'static, T2>,)),
        76 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,Read<'static, T1>,)),
        77 => act!(set, op, src, (Write<'static, T2>,Read<'static, T1>,Write<'static, T2>,)),
        78 => act!(set, op, src, (NoneS,Read<'static, T1>,NoneS,)),
        79 => act!(set, op, src, ((Read<'static, T1>,Read<'static, T2>,),Write<'static, T3>,)),
        80 => act!(set, op, src, (Read<'static, T1>,(Read<'static, T2>,Write<'static, T3>,),)),
        81 => act!(set, op, src, ((Read<'static, T1>,Write<'static, T2>,),(Read<'static, T1>,Read<'static, T2>,),)),
        82 => act!(set, op, src, ((Write<'static, T1>,),(Write<'static, T1>,),)),
        83 => act!(set, op, src, ((Write<'static, T1>,Read<'static, T1>,),Write<'static, T3>,)),
        84 => act!(set, op, src, (Write<'static, T3>,(Read<'static, T2>,Write<'static, T2>,),)),
        85 => act!(set, op, src, (((Read<'static, T1>,),),)),
        86 => act!(set, op, src, ((Read<'static, T1>,NoneS,),(NoneS,Read<'static, T1>,),)),
        87 => act!(set, op, src, ((Write<'static, T2>,NoneS,),Read<'static, T1>,)),
        88 => act!(set, op, src, ((Read<'static, T1>,Read<'static, T1>,),(Read<'static, T1>,(Write<'static, T2>,),),)),
        89 => act!(set, op, src, ((NoneS,),(Write<'static, T3>,(Write<'static, T3>,),),)),
        90 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        91 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        92 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T1>,)),
        93 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        94 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        95 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T1>,)),
        96 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        97 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        98 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T1>,)),
        99 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        100 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        101 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T1>,)),
        102 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        103 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        104 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T1>,)),
        105 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        106 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        107 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T1>,)),
        108 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        109 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        110 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T1>,)),
        111 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        112 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        113 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T1>,)),
        114 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        115 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        116 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T1>,)),
        117 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        118 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        119 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T1>,)),
        120 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        121 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        122 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T1>,)),
        123 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        124 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        125 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T1>,)),
        126 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        127 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        128 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T1>,)),
        129 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        130 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        131 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T1>,)),
        132 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        133 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        134 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T1>,)),
        135 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        136 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        137 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T1>,)),
        138 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        139 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        140 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T1>,)),
        141 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        142 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        143 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T1>,)),
        144 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        145 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        146 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T1>,)),
        147 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        148 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T3>,)),
        149 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,Write<'static, T1>,)),
        150 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        151 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T3>,)),
        152 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,Write<'static, T1>,)),
        153 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        154 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T3>,)),
        155 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Write<'static, T1>,)),
        156 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        157 => act!(set, op, src, (Write<'static, T3>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T3>,)),
        158 => act!(set, op, src, (Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Read<'static, T2>,NoneS,NoneS,Read<'static, T1>,Write<'static, T1>,)),
        159 => act!(set, op, src, (NoneS,NoneS,NoneS,Write<'static, T1>,)),
        160 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,Write<'static, T2>,Read<'static, T1>,)),
        161 => act!(set, op, src, (Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Write<'static, T2>,)),
        162 => act!(set, op, src, (NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,Write<'static, T1>,)),
        163 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Write<'static, T2>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,)),
        164 => act!(set, op, src, (Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Write<'static, T2>,)),
        165 => act!(set, op, src, (NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,Write<'static, T1>,)),
        166 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Write<'static, T2>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,)),
        167 => act!(set, op, src, (Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Write<'static, T2>,)),
        168 => act!(set, op, src, (NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,NoneS,Write<'static, T1>,)),
        169 => act!(set, op, src, (Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Write<'static, T2>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,Read<'static, T1>,)),
        170 => act!(set, op, src, (Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Read<'static, T2>,Write<'static, T2>,)),
        _ => panic!("harness: shape {id}"),
    }
}

#[rustfmt::skip]
pub fn world(id: usize, op: Act, src: &'static World) -> Done {
    match id {
        1 => act!(world, op, src, ReadResource<'static, T1>),
        2 => act!(world, op, src, WriteResource<'static, T1>),
        3 => act!(world, op, src, ReadComponent<'static, T1>),
        4 => act!(world, op, src, WriteComponent<'static, T1>),
        5 => act!(world, op, src, WriteResource<'static, T3>),
        6 => act!(world, op, src, Entities<'static>),
        7 => act!(world, op, src, NoneW),
        8 => act!(world, op, src, (ReadResource<'static, T1>,)),
        9 => act!(world, op, src, (WriteComponent<'static, T1>,)),
        10 => act!(world, op, src, (Entities<'static>,)),
        11 => act!(world, op, src, (NoneW,)),
        12 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,)),
        13 => act!(world, op, src, (ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        14 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,)),
        15 => act!(world, op, src, (ReadResource<'static, T1>,WriteComponent<'static, T1>,)),
        16 => act!(world, op, src, (ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        17 => act!(world, op, src, (ReadResource<'static, T1>,Entities<'static>,)),
        18 => act!(world, op, src, (ReadResource<'static, T1>,NoneW,)),
        19 => act!(world, op, src, (WriteResource<'static, T1>,ReadResource<'static, T1>,)),
        20 => act!(world, op, src, (WriteResource<'static, T1>,WriteResource<'static, T1>,)),
        21 => act!(world, op, src, (WriteResource<'static, T1>,ReadComponent<'static, T1>,)),
        22 => act!(world, op, src, (WriteResource<'static, T1>,WriteComponent<'static, T1>,)),
        23 => act!(world, op, src, (WriteResource<'static, T1>,WriteResource<'static, T3>,)),
        24 => act!(world, op, src, (WriteResource<'static, T1>,Entities<'static>,)),
        25 => act!(world, op, src, (WriteResource<'static, T1>,NoneW,)),
        26 => act!(world, op, src, (ReadComponent<'static, T1>,ReadResource<'static, T1>,)),
        27 => act!(world, op, src, (ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        28 => act!(world, op, src, (ReadComponent<'static, T1>,ReadComponent<'static, T1>,)),
        29 => act!(world, op, src, (ReadComponent<'static, T1>,WriteComponent<'static, T1>,)),
        30 => act!(world, op, src, (ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        31 => act!(world, op, src, (ReadComponent<'static, T1>,Entities<'static>,)),
        32 => act!(world, op, src, (ReadComponent<'static, T1>,NoneW,)),
        33 => act!(world, op, src, (WriteComponent<'static, T1>,ReadResource<'static, T1>,)),
        34 => act!(world, op, src, (WriteComponent<'static, T1>,WriteResource<'static, T1>,)),
        35 => act!(world, op, src, (WriteComponent<'static, T1>,ReadComponent<'static, T1>,)),
        36 => act!(world, op, src, (WriteComponent<'static, T1>,WriteComponent<'static, T1>,)),
        37 => act!(world, op, src, (WriteComponent<'static, T1>,WriteResource<'static, T3>,)),
        38 => act!(world, op, src, (WriteComponent<'static, T1>,Entities<'static>,)),
        39 => act!(world, op, src, (WriteComponent<'static, T1>,NoneW,)),
        40 => act!(world, op, src, (WriteResource<'static, T3>,ReadResource<'static, T1>,)),
        41 => act!(world, op, src, (WriteResource<'static, T3>,WriteResource<'static, T1>,)),
        42 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,)),
        43 => act!(world, op, src, (WriteResource<'static, T3>,WriteComponent<'static, T1>,)),
        44 => act!(world, op, src, (WriteResource<'static, T3>,WriteResource<'static, T3>,)),
        45 => act!(world, op, src, (WriteResource<'static, T3>,Entities<'static>,)),
        46 => act!(world, op, src, (WriteResource<'static, T3>,NoneW,)),
        47 => act!(world, op, src, (Entities<'static>,ReadResource<'static, T1>,)),
        48 => act!(world, op, src, (Entities<'static>,WriteResource<'static, T1>,)),
        49 => act!(world, op, src, (Entities<'static>,ReadComponent<'static, T1>,)),
        50 => act!(world, op, src, (Entities<'static>,WriteComponent<'static, T1>,)),
        51 => act!(world, op, src, (Entities<'static>,WriteResource<'static, T3>,)),
        52 => act!(world, op, src, (Entities<'static>,Entities<'static>,)),
        53 => act!(world, op, src, (Entities<'static>,NoneW,)),
        54 => act!(world, op, src, (NoneW,ReadResource<'static, T1>,)),
        55 => act!(world, op, src, (NoneW,WriteResource<'static, T1>,)),
        56 => act!(world, op, src, (NoneW,ReadComponent<'static, T1>,)),
        57 => act!(world, op, src, (NoneW,WriteComponent<'static, T1>,)),
        58 => act!(world, op, src, (NoneW,WriteResource<'static, T3>,)),
        59 => act!(world, op, src, (NoneW,Entities<'static>,)),
        60 => act!(world, op, src, (NoneW,NoneW,)),
        61 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        62 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,)),
        63 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        64 => act!(world, op, src, (WriteResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,)),
        65 => act!(world, op, src, (ReadResource<'static, T1>,WriteResource<'static, T1>,ReadResource<'static, T1>,)),
        66 => act!(world, op, src, (WriteResource<'static, T1>,WriteComponent<'static, T1>,WriteResource<'static, T3>,)),
        67 => act!(world, op, src, (WriteResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        68 => act!(world, op, src, (ReadComponent<'static, T1>,Entities<'static>,WriteComponent<'static, T1>,)),
        69 => act!(world, op, src, (Entities<'static>,Entities<'static>,WriteComponent<'static, T1>,)),
        70 => act!(world, op, src, (WriteComponent<'static, T1>,Entities<'static>,ReadComponent<'static, T1>,)),
        71 => act!(world, op, src, (NoneW,WriteResource<'static, T1>,NoneW,)),
        72 => act!(world, op, src, (WriteResource<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        73 => act!(world, op, src, (WriteResource<'static, T3>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        74 => act!(world, op, src, (WriteResource<'static, T3>,WriteComponent<'static, T1>,ReadComponent<'static, T1>,)),
        75 => act!(world, op, src, (ReadComponent<'static, T1>,WriteResource<'static, T1>,ReadComponent<'static, T1>,)),
        76 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,ReadResource<'static, T1>,)),
        77 => act!(world, op, src, (WriteComponent<'static, T1>,ReadResource<'static, T1>,WriteComponent<'static, T1>,)),
        78 => act!(world, op, src, (Entities<'static>,ReadResource<'static, T1>,Entities<'static>,)),
        79 => act!(world, op, src, ((ReadResource<'static, T1>,ReadComponent<'static, T1>,),WriteResource<'static, T3>,)),
        80 => act!(world, op, src, (ReadResource<'static, T1>,(ReadComponent<'static, T1>,WriteResource<'static, T3>,),)),
        81 => act!(world, op, src, ((ReadResource<'static, T1>,WriteComponent<'static, T1>,),(ReadResource<'static, T1>,ReadComponent<'static, T1>,),)),
        82 => act!(world, op, src, ((WriteResource<'static, T1>,),(WriteResource<'static, T1>,),)),
        83 => act!(world, op, src, ((WriteResource<'static, T1>,ReadResource<'static, T1>,),WriteResource<'static, T3>,)),
        84 => act!(world, op, src, (WriteResource<'static, T3>,(ReadComponent<'static, T1>,WriteComponent<'static, T1>,),)),
        85 => act!(world, op, src, (((ReadResource<'static, T1>,),),)),
        86 => act!(world, op, src, ((ReadResource<'static, T1>,NoneW,),(NoneW,ReadResource<'static, T1>,),)),
        87 => act!(world, op, src, ((WriteComponent<'static, T1>,Entities<'static>,),ReadResource<'static, T1>,)),
        88 => act!(world, op, src, ((ReadResource<'static, T1>,ReadResource<'static, T1>,),(ReadResource<'static, T1>,(WriteComponent<'static, T1>,),),)),
        89 => act!(world, op, src, ((NoneW,),(WriteResource<'static, T3>,(WriteResource<'static, T3>,),),)),
        90 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        91 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        92 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        93 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        94 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        95 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T1>,)),
        96 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        97 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        98 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        99 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        100 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        101 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        102 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        103 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        104 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        105 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        106 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        107 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T1>,)),
        108 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        109 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        110 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        111 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        112 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        113 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        114 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        115 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        116 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        117 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        118 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        119 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T1>,)),
        120 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        121 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        122 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        123 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        124 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        125 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        126 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        127 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        128 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        129 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        130 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        131 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T1>,)),
        132 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        133 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        134 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        135 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        136 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        137 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        138 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        139 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        140 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        141 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        142 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        143 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T1>,)),
        144 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        145 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        146 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        147 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        148 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T3>,)),
        149 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,WriteResource<'static, T1>,)),
        150 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        151 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T3>,)),
        152 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,WriteResource<'static, T1>,)),
        153 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        154 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T3>,)),
        155 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,WriteResource<'static, T1>,)),
        156 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        157 => act!(world, op, src, (WriteResource<'static, T3>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T3>,)),
        158 => act!(world, op, src, (ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,ReadComponent<'static, T1>,NoneW,Entities<'static>,ReadResource<'static, T1>,WriteResource<'static, T1>,)),
        159 => act!(world, op, src, (NoneW,NoneW,NoneW,WriteResource<'static, T1>,)),
        160 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,WriteComponent<'static, T1>,ReadResource<'static, T1>,)),
        161 => act!(world, op, src, (ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,WriteComponent<'static, T1>,)),
        162 => act!(world, op, src, (NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,WriteResource<'static, T1>,)),
        163 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,WriteComponent<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,)),
        164 => act!(world, op, src, (ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,WriteComponent<'static, T1>,)),
        165 => act!(world, op, src, (NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,WriteResource<'static, T1>,)),
        166 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,WriteComponent<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,)),
        167 => act!(world, op, src, (ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,WriteComponent<'static, T1>,)),
        168 => act!(world, op, src, (NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,NoneW,WriteResource<'static, T1>,)),
        169 => act!(world, op, src, (ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,WriteComponent<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,ReadResource<'static, T1>,)),
        170 => act!(world, op, src, (ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,ReadComponent<'static, T1>,WriteComponent<'static, T1>,)),
        _ => panic!("harness: shape {id}"),
    }
}
