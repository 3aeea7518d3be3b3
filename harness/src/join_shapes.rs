// Written by bin/gen_shapes.py.
#![allow(unused_parens)]
use super::*;

#[rustfmt::skip]
pub fn run(id: usize, op: &str, f: &mut Fix) -> Out {
    match id {
        1 => s1(op, f),
        2 => s2(op, f),
        3 => s3(op, f),
        4 => s4(op, f),
        5 => s5(op, f),
        6 => s6(op, f),
        7 => s7(op, f),
        8 => s8(op, f),
        9 => s9(op, f),
        10 => s10(op, f),
        11 => s11(op, f),
        12 => s12(op, f),
        13 => s13(op, f),
        14 => s14(op, f),
        15 => s15(op, f),
        16 => s16(op, f),
        17 => s17(op, f),
        18 => s18(op, f),
        19 => s19(op, f),
        20 => s20(op, f),
        21 => s21(op, f),
        22 => s22(op, f),
        23 => s23(op, f),
        24 => s24(op, f),
        25 => s25(op, f),
        26 => s26(op, f),
        27 => s27(op, f),
        28 => s28(op, f),
        29 => s29(op, f),
        30 => s30(op, f),
        31 => s31(op, f),
        32 => s32(op, f),
        33 => s33(op, f),
        34 => s34(op, f),
        35 => s35(op, f),
        36 => s36(op, f),
        37 => s37(op, f),
        38 => s38(op, f),
        39 => s39(op, f),
        40 => s40(op, f),
        41 => s41(op, f),
        42 => s42(op, f),
        43 => s43(op, f),
        44 => s44(op, f),
        45 => s45(op, f),
        46 => s46(op, f),
        47 => s47(op, f),
        48 => s48(op, f),
        49 => s49(op, f),
        50 => s50(op, f),
        51 => s51(op, f),
        52 => s52(op, f),
        53 => s53(op, f),
        54 => s54(op, f),
        55 => s55(op, f),
        56 => s56(op, f),
        57 => s57(op, f),
        58 => s58(op, f),
        59 => s59(op, f),
        60 => s60(op, f),
        61 => s61(op, f),
        62 => s62(op, f),
        63 => s63(op, f),
        64 => s64(op, f),
        65 => s65(op, f),
        66 => s66(op, f),
        67 => s67(op, f),
        68 => s68(op, f),
        69 => s69(op, f),
        70 => s70(op, f),
        71 => s71(op, f),
        72 => s72(op, f),
        73 => s73(op, f),
        74 => s74(op, f),
        75 => s75(op, f),
        76 => s76(op, f),
        77 => s77(op, f),
        78 => s78(op, f),
        79 => s79(op, f),
        80 => s80(op, f),
        81 => s81(op, f),
        82 => s82(op, f),
        83 => s83(op, f),
        84 => s84(op, f),
        85 => s85(op, f),
        86 => s86(op, f),
        87 => s87(op, f),
        88 => s88(op, f),
        89 => s89(op, f),
        90 => s90(op, f),
        91 => s91(op, f),
        92 => s92(op, f),
        93 => s93(op, f),
        94 => s94(op, f),
        95 => s95(op, f),
        96 => s96(op, f),
        97 => s97(op, f),
        98 => s98(op, f),
        99 => s99(op, f),
        100 => s100(op, f),
        101 => s101(op, f),
        102 => s102(op, f),
        103 => s103(op, f),
        104 => s104(op, f),
        105 => s105(op, f),
        106 => s106(op, f),
        107 => s107(op, f),
        108 => s108(op, f),
        109 => s109(op, f),
        110 => s110(op, f),
        111 => s111(op, f),
        112 => s112(op, f),
        113 => s113(op, f),
        114 => s114(op, f),
        115 => s115(op, f),
        116 => s116(op, f),
        117 => s117(op, f),
        118 => s118(op, f),
        119 => s119(op, f),
        120 => s120(op, f),
        121 => s121(op, f),
        122 => s122(op, f),
        123 => s123(op, f),
        124 => s124(op, f),
        125 => s125(op, f),
        126 => s126(op, f),
        127 => s127(op, f),
        128 => s128(op, f),
        129 => s129(op, f),
        130 => s130(op, f),
        131 => s131(op, f),
        132 => s132(op, f),
        133 => s133(op, f),
        134 => s134(op, f),
        135 => s135(op, f),
        136 => s136(op, f),
        137 => s137(op, f),
        138 => s138(op, f),
        139 => s139(op, f),
        140 => s140(op, f),
        141 => s141(op, f),
        142 => s142(op, f),
        143 => s143(op, f),
        144 => s144(op, f),
        145 => s145(op, f),
        146 => s146(op, f),
        147 => s147(op, f),
        148 => s148(op, f),
        149 => s149(op, f),
        150 => s150(op, f),
        151 => s151(op, f),
        152 => s152(op, f),
        153 => s153(op, f),
        154 => s154(op, f),
        155 => s155(op, f),
        156 => s156(op, f),
        157 => s157(op, f),
        158 => s158(op, f),
        159 => s159(op, f),
        160 => s160(op, f),
        161 => s161(op, f),
        162 => s162(op, f),
        163 => s163(op, f),
        164 => s164(op, f),
        165 => s165(op, f),
        166 => s166(op, f),
        167 => s167(op, f),
        168 => s168(op, f),
        169 => s169(op, f),
        170 => s170(op, f),
        171 => s171(op, f),
        172 => s172(op, f),
        173 => s173(op, f),
        174 => s174(op, f),
        175 => s175(op, f),
        176 => s176(op, f),
        177 => s177(op, f),
        178 => s178(op, f),
        179 => s179(op, f),
        180 => s180(op, f),
        181 => s181(op, f),
        182 => s182(op, f),
        183 => s183(op, f),
        184 => s184(op, f),
        185 => s185(op, f),
        186 => s186(op, f),
        187 => s187(op, f),
        188 => s188(op, f),
        189 => s189(op, f),
        190 => s190(op, f),
        191 => s191(op, f),
        192 => s192(op, f),
        193 => s193(op, f),
        194 => s194(op, f),
        195 => s195(op, f),
        196 => s196(op, f),
        197 => s197(op, f),
        198 => s198(op, f),
        199 => s199(op, f),
        200 => s200(op, f),
        201 => s201(op, f),
        202 => s202(op, f),
        203 => s203(op, f),
        204 => s204(op, f),
        205 => s205(op, f),
        206 => s206(op, f),
        207 => s207(op, f),
        208 => s208(op, f),
        209 => s209(op, f),
        210 => s210(op, f),
        211 => s211(op, f),
        212 => s212(op, f),
        213 => s213(op, f),
        214 => s214(op, f),
        215 => s215(op, f),
        216 => s216(op, f),
        217 => s217(op, f),
        218 => s218(op, f),
        219 => s219(op, f),
        220 => s220(op, f),
        221 => s221(op, f),
        222 => s222(op, f),
        223 => s223(op, f),
        224 => s224(op, f),
        225 => s225(op, f),
        226 => s226(op, f),
        227 => s227(op, f),
        228 => s228(op, f),
        229 => s229(op, f),
        230 => s230(op, f),
        231 => s231(op, f),
        232 => s232(op, f),
        _ => panic!("harness: no shape {id}"),
    }
}

#[rustfmt::skip]
fn s1(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, &f.b1)
}
#[rustfmt::skip]
fn s2(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, f.b1.clone())
}
#[rustfmt::skip]
fn s3(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1"]);
    ops!(par, op, f, &f.a1)
}
#[rustfmt::skip]
fn s4(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, atomic(&f.b1))
}
#[rustfmt::skip]
fn s5(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, BitSetAll)
}
#[rustfmt::skip]
fn s6(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, &BitSetAll)
}
#[rustfmt::skip]
fn s7(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, &f.s1)
}
#[rustfmt::skip]
fn s8(op: &str, f: &mut Fix) -> Out {
    f.need(&["s2"]);
    ops!(par, op, f, &f.s2)
}
#[rustfmt::skip]
fn s9(op: &str, f: &mut Fix) -> Out {
    f.need(&["s3"]);
    ops!(par, op, f, &f.s3)
}
#[rustfmt::skip]
fn s10(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, &mut f.s1)
}
#[rustfmt::skip]
fn s11(op: &str, f: &mut Fix) -> Out {
    f.need(&["s2"]);
    ops!(par, op, f, &mut f.s2)
}
#[rustfmt::skip]
fn s12(op: &str, f: &mut Fix) -> Out {
    f.need(&["s3"]);
    ops!(par, op, f, &mut f.s3)
}
#[rustfmt::skip]
fn s13(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, f.s1.guard())
}
#[rustfmt::skip]
fn s14(op: &str, f: &mut Fix) -> Out {
    f.need(&["s2"]);
    ops!(par, op, f, f.s2.guard())
}
#[rustfmt::skip]
fn s15(op: &str, f: &mut Fix) -> Out {
    f.need(&["s3"]);
    ops!(par, op, f, f.s3.guard())
}
#[rustfmt::skip]
fn s16(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1"]);
    ops!(par, op, f, &f.w.read_component::<JA>())
}
#[rustfmt::skip]
fn s17(op: &str, f: &mut Fix) -> Out {
    f.need(&["w2"]);
    ops!(par, op, f, &f.w.read_component::<JB>())
}
#[rustfmt::skip]
fn s18(op: &str, f: &mut Fix) -> Out {
    f.need(&["w3"]);
    ops!(par, op, f, &f.w.read_component::<JC>())
}
#[rustfmt::skip]
fn s19(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1"]);
    ops!(par, op, f, &mut f.w.write_component::<JA>())
}
#[rustfmt::skip]
fn s20(op: &str, f: &mut Fix) -> Out {
    f.need(&["w2"]);
    ops!(par, op, f, &mut f.w.write_component::<JB>())
}
#[rustfmt::skip]
fn s21(op: &str, f: &mut Fix) -> Out {
    f.need(&["w3"]);
    ops!(par, op, f, &mut f.w.write_component::<JC>())
}
#[rustfmt::skip]
fn s22(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1"]);
    ops!(par, op, f, f.w.write_component::<JA>().guard())
}
#[rustfmt::skip]
fn s23(op: &str, f: &mut Fix) -> Out {
    f.need(&["w2"]);
    ops!(par, op, f, f.w.write_component::<JB>().guard())
}
#[rustfmt::skip]
fn s24(op: &str, f: &mut Fix) -> Out {
    f.need(&["w3"]);
    ops!(par, op, f, f.w.write_component::<JC>().guard())
}
#[rustfmt::skip]
fn s25(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "s3"]);
    ops!(par, op, f, f.s3.modified())
}
#[rustfmt::skip]
fn s26(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "s3"]);
    ops!(par, op, f, f.s3.modified_mut())
}
#[rustfmt::skip]
fn s27(op: &str, f: &mut Fix) -> Out {
    f.need(&["w3", "wd"]);
    ops!(par, op, f, f.w.read_component::<JC>().modified())
}
#[rustfmt::skip]
fn s28(op: &str, f: &mut Fix) -> Out {
    f.need(&["w3", "wd"]);
    ops!(par, op, f, f.w.write_component::<JC>().modified_mut())
}
#[rustfmt::skip]
fn s29(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1"]);
    ops!(par, op, f, &f.e1)
}
#[rustfmt::skip]
fn s30(op: &str, f: &mut Fix) -> Out {
    f.need(&["n"]);
    ops!(par, op, f, &f.w.entities())
}
#[rustfmt::skip]
fn s31(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1"]);
    ops!(par, op, f, f.e1.live_bitset())
}
#[rustfmt::skip]
fn s32(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, f.s1.mask())
}
#[rustfmt::skip]
fn s33(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetNot(&f.b1))
}
#[rustfmt::skip]
fn s34(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1"]);
    ops!(par, op, f, BitSetNot(&f.a1))
}
#[rustfmt::skip]
fn s35(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, BitSetNot(BitSetAll))
}
#[rustfmt::skip]
fn s36(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetNot(BitSetNot(&f.b1)))
}
#[rustfmt::skip]
fn s37(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetAnd(&f.b1, &f.b2))
}
#[rustfmt::skip]
fn s38(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetOr(&f.b1, &f.b2))
}
#[rustfmt::skip]
fn s39(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetXor(&f.b1, &f.b2))
}
#[rustfmt::skip]
fn s40(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1", "b2"]);
    ops!(par, op, f, BitSetAnd(&f.a1, f.b2.clone()))
}
#[rustfmt::skip]
fn s41(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1", "b2"]);
    ops!(par, op, f, BitSetOr(&f.a1, f.b2.clone()))
}
#[rustfmt::skip]
fn s42(op: &str, f: &mut Fix) -> Out {
    f.need(&["a2", "b1"]);
    ops!(par, op, f, BitSetXor(atomic(&f.b1), &f.a2))
}
#[rustfmt::skip]
fn s43(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetAnd(&f.b1, BitSetNot(&f.b2)))
}
#[rustfmt::skip]
fn s44(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetAnd(BitSetNot(&f.b1), &f.b2))
}
#[rustfmt::skip]
fn s45(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetAnd(BitSetNot(&f.b1), BitSetNot(&f.b2)))
}
#[rustfmt::skip]
fn s46(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetOr(&f.b1, BitSetNot(&f.b2)))
}
#[rustfmt::skip]
fn s47(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetOr(BitSetNot(&f.b1), &f.b2))
}
#[rustfmt::skip]
fn s48(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetOr(BitSetNot(&f.b1), BitSetNot(&f.b2)))
}
#[rustfmt::skip]
fn s49(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetXor(&f.b1, BitSetNot(&f.b2)))
}
#[rustfmt::skip]
fn s50(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetXor(BitSetNot(&f.b1), &f.b2))
}
#[rustfmt::skip]
fn s51(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetXor(BitSetNot(&f.b1), BitSetNot(&f.b2)))
}
#[rustfmt::skip]
fn s52(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetAnd(&f.b1, BitSetAll))
}
#[rustfmt::skip]
fn s53(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetAnd(BitSetAll, &f.b1))
}
#[rustfmt::skip]
fn s54(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetOr(&f.b1, BitSetAll))
}
#[rustfmt::skip]
fn s55(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetOr(BitSetAll, &f.b1))
}
#[rustfmt::skip]
fn s56(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetXor(&f.b1, BitSetAll))
}
#[rustfmt::skip]
fn s57(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetXor(BitSetAll, &f.b1))
}
#[rustfmt::skip]
fn s58(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, BitSetAnd(BitSetAll, BitSetAll))
}
#[rustfmt::skip]
fn s59(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetAnd(&f.b1, &f.b2)))
}
#[rustfmt::skip]
fn s60(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetOr(&f.b1, &f.b2)))
}
#[rustfmt::skip]
fn s61(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetXor(&f.b1, &f.b2)))
}
#[rustfmt::skip]
fn s62(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetOr(BitSetNot(&f.b1), BitSetNot(&f.b2))))
}
#[rustfmt::skip]
fn s63(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetAnd(BitSetNot(&f.b1), BitSetNot(&f.b2))))
}
#[rustfmt::skip]
fn s64(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetAnd(BitSetNot(&f.b1), &f.b2)))
}
#[rustfmt::skip]
fn s65(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetOr(BitSetNot(&f.b1), &f.b2)))
}
#[rustfmt::skip]
fn s66(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetNot(BitSetOr(&f.b1, BitSetNot(&f.b2))))
}
#[rustfmt::skip]
fn s67(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, &BitSetNot(&f.b1))
}
#[rustfmt::skip]
fn s68(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, &BitSetAnd(&f.b1, &f.b2))
}
#[rustfmt::skip]
fn s69(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, &BitSetOr(&f.b1, &f.b2))
}
#[rustfmt::skip]
fn s70(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, &BitSetNot(BitSetNot(&f.b1)))
}
#[rustfmt::skip]
fn s71(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, &BitSetAnd(BitSetNot(&f.b1), &f.b2))
}
#[rustfmt::skip]
fn s72(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, &BitSetOr(BitSetNot(&f.b1), &f.b2))
}
#[rustfmt::skip]
fn s73(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, &BitSetAnd(BitSetAll, BitSetNot(&f.b1)))
}
#[rustfmt::skip]
fn s74(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetNot(&BitSetNot(&f.b1)))
}
#[rustfmt::skip]
fn s75(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetAnd(&BitSetNot(&f.b1), &BitSetAll))
}
#[rustfmt::skip]
fn s76(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, BitSetOr(&BitSetAnd(&f.b1, &f.b2), &&f.b2))
}
#[rustfmt::skip]
fn s77(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, BitSetAnd(&&BitSetAll, &&f.b1))
}
#[rustfmt::skip]
fn s78(op: &str, f: &mut Fix) -> Out {
    f.need(&["e2"]);
    ops!(par, op, f, f.e2.live_bitset())
}
#[rustfmt::skip]
fn s79(op: &str, f: &mut Fix) -> Out {
    f.need(&["e2", "s1"]);
    ops!(par, op, f, BitSetAnd(f.s1.mask(), f.e2.live_bitset()))
}
#[rustfmt::skip]
fn s80(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2"]);
    ops!(par, op, f, BitSetOr(f.e1.live_bitset(), BitSetNot(f.s2.mask())))
}
#[rustfmt::skip]
fn s81(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetAnd(&f.b1, BitSetOr(&f.b2, BitSetNot(&f.b3))))
}
#[rustfmt::skip]
fn s82(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetOr(BitSetAnd(&f.b1, BitSetNot(&f.b2)), &f.b3))
}
#[rustfmt::skip]
fn s83(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetXor(BitSetOr(&f.b1, &f.b2), BitSetAnd(&f.b2, &f.b3)))
}
#[rustfmt::skip]
fn s84(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetOr(BitSetAnd(&f.b1, &f.b2), BitSetNot(BitSetNot(&f.b3))))
}
#[rustfmt::skip]
fn s85(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetAnd(BitSetOr(BitSetNot(&f.b1), &f.b2), &f.b3))
}
#[rustfmt::skip]
fn s86(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetXor(BitSetXor(&f.b1, &f.b2), &f.b3))
}
#[rustfmt::skip]
fn s87(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetNot(BitSetAnd(&f.b1, BitSetOr(BitSetNot(&f.b2), &f.b3))))
}
#[rustfmt::skip]
fn s88(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1", "a2", "a3"]);
    ops!(par, op, f, BitSetOr(BitSetOr(&f.a1, &f.a2), &f.a3))
}
#[rustfmt::skip]
fn s89(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetAnd(BitSetAnd(&f.b1, BitSetNot(&f.b2)), BitSetNot(&f.b3)))
}
#[rustfmt::skip]
fn s90(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetAnd(BitSetNot(&f.b1), BitSetAnd(BitSetNot(&f.b2), BitSetNot(&f.b3))))
}
#[rustfmt::skip]
fn s91(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, BitSetXor(BitSetAnd(&f.b1, &f.b2), BitSetNot(&f.b3)))
}
#[rustfmt::skip]
fn s92(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (&f.s1, &f.s2, ))
}
#[rustfmt::skip]
fn s93(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (&f.s1, &mut f.s2, ))
}
#[rustfmt::skip]
fn s94(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (&mut f.s2, &f.s1, ))
}
#[rustfmt::skip]
fn s95(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (&mut f.s1, &mut f.s2, ))
}
#[rustfmt::skip]
fn s96(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s3"]);
    ops!(par, op, f, (f.s3.guard(), &f.s1, ))
}
#[rustfmt::skip]
fn s97(op: &str, f: &mut Fix) -> Out {
    f.need(&["b2", "s1"]);
    ops!(par, op, f, (&f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s98(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2"]);
    ops!(par, op, f, (&f.b1, &f.s2, ))
}
#[rustfmt::skip]
fn s99(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, (&f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s100(op: &str, f: &mut Fix) -> Out {
    f.need(&["b2", "s1"]);
    ops!(par, op, f, (&f.s1, BitSetNot(&f.b2), ))
}
#[rustfmt::skip]
fn s101(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2"]);
    ops!(par, op, f, (BitSetNot(&f.b1), &f.s2, ))
}
#[rustfmt::skip]
fn s102(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1", "s3"]);
    ops!(par, op, f, (&mut f.s3, BitSetNot(&f.a1), ))
}
#[rustfmt::skip]
fn s103(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, (&f.b1, BitSetAll, ))
}
#[rustfmt::skip]
fn s104(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, (BitSetAll, &f.b1, ))
}
#[rustfmt::skip]
fn s105(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, (BitSetAll, BitSetAll, ))
}
#[rustfmt::skip]
fn s106(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, (BitSetNot(&f.b1), BitSetNot(&f.b2), ))
}
#[rustfmt::skip]
fn s107(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2"]);
    ops!(par, op, f, (&f.e1, &f.s2, ))
}
#[rustfmt::skip]
fn s108(op: &str, f: &mut Fix) -> Out {
    f.need(&["e2", "s1"]);
    ops!(par, op, f, (&f.s1, &f.e2, ))
}
#[rustfmt::skip]
fn s109(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s3"]);
    ops!(par, op, f, (&f.e1, &mut f.s3, ))
}
#[rustfmt::skip]
fn s110(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2"]);
    ops!(par, op, f, (&f.e1, BitSetNot(f.s2.mask()), ))
}
#[rustfmt::skip]
fn s111(op: &str, f: &mut Fix) -> Out {
    f.need(&["b3", "e1", "s2"]);
    ops!(par, op, f, (&f.e1, BitSetAnd(f.s2.mask(), BitSetNot(&f.b3)), ))
}
#[rustfmt::skip]
fn s112(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "e2"]);
    ops!(par, op, f, (&f.e1, &f.e2, ))
}
#[rustfmt::skip]
fn s113(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (&f.s1, (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s114(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, ((&f.s1).maybe(), &f.s2, ))
}
#[rustfmt::skip]
fn s115(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s3"]);
    ops!(par, op, f, (&f.s1, (&mut f.s3).maybe(), ))
}
#[rustfmt::skip]
fn s116(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (&mut f.s1, (f.s2.guard()).maybe(), ))
}
#[rustfmt::skip]
fn s117(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, ((&f.s1).maybe(), (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s118(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, ((&mut f.s1).maybe(), (&mut f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s119(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2"]);
    ops!(par, op, f, (&f.e1, (&mut f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s120(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, ((BitSetAll).maybe(), &f.b1, ))
}
#[rustfmt::skip]
fn s121(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2"]);
    ops!(par, op, f, (&f.b1, ((&f.s2).maybe()).maybe(), ))
}
#[rustfmt::skip]
fn s122(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, (&f.b1, (BitSetNot(&f.b2)).maybe(), ))
}
#[rustfmt::skip]
fn s123(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, ((&f.b1).maybe(), BitSetNot(&f.b2), ))
}
#[rustfmt::skip]
fn s124(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1", "w2"]);
    ops!(par, op, f, (&f.w.read_component::<JA>(), &mut f.w.write_component::<JB>(), ))
}
#[rustfmt::skip]
fn s125(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1", "w2"]);
    ops!(par, op, f, (&mut f.w.write_component::<JA>(), &f.w.read_component::<JB>(), ))
}
#[rustfmt::skip]
fn s126(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1", "w3"]);
    ops!(par, op, f, (f.w.write_component::<JC>().guard(), &f.w.read_component::<JA>(), ))
}
#[rustfmt::skip]
fn s127(op: &str, f: &mut Fix) -> Out {
    f.need(&["n", "w2"]);
    ops!(par, op, f, (&f.w.entities(), &mut f.w.write_component::<JB>(), ))
}
#[rustfmt::skip]
fn s128(op: &str, f: &mut Fix) -> Out {
    f.need(&["n", "w2"]);
    ops!(par, op, f, (&f.w.entities(), (&f.w.read_component::<JB>()).maybe(), ))
}
#[rustfmt::skip]
fn s129(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "w3"]);
    ops!(par, op, f, (&f.w.read_component::<JC>(), BitSetNot(&f.b1), ))
}
#[rustfmt::skip]
fn s130(op: &str, f: &mut Fix) -> Out {
    f.need(&["n", "w3", "wd"]);
    ops!(par, op, f, (&f.w.entities(), f.w.read_component::<JC>().modified(), ))
}
#[rustfmt::skip]
fn s131(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1", "w3", "wd"]);
    ops!(par, op, f, (f.w.write_component::<JC>().modified_mut(), &f.w.read_component::<JA>(), ))
}
#[rustfmt::skip]
fn s132(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "s1", "s3"]);
    ops!(par, op, f, (f.s3.modified(), &f.s1, ))
}
#[rustfmt::skip]
fn s133(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "s1", "s3"]);
    ops!(par, op, f, (f.s3.modified(), (&f.s1).maybe(), ))
}
#[rustfmt::skip]
fn s134(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "s1", "s3"]);
    ops!(par, op, f, (&f.s1, f.s3.modified_mut(), ))
}
#[rustfmt::skip]
fn s135(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "s1", "s3"]);
    ops!(par, op, f, ((f.s3.modified()).maybe(), &f.s1, ))
}
#[rustfmt::skip]
fn s136(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "e1", "s3"]);
    ops!(par, op, f, (&f.e1, f.s3.modified(), ))
}
#[rustfmt::skip]
fn s137(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "d", "s3"]);
    ops!(par, op, f, (f.s3.modified(), BitSetNot(&f.b1), ))
}
#[rustfmt::skip]
fn s138(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "d", "s3"]);
    ops!(par, op, f, (f.s3.modified_mut(), &f.b1, ))
}
#[rustfmt::skip]
fn s139(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s3"]);
    ops!(par, op, f, (BitSetOr(&f.b1, &f.b2), &f.s3, ))
}
#[rustfmt::skip]
fn s140(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s3"]);
    ops!(par, op, f, (BitSetXor(&f.b1, &f.b2), &mut f.s3, ))
}
#[rustfmt::skip]
fn s141(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s3"]);
    ops!(par, op, f, (BitSetOr(BitSetNot(&f.b1), &f.b2), &f.s3, ))
}
#[rustfmt::skip]
fn s142(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s3"]);
    ops!(par, op, f, (BitSetAnd(BitSetNot(&f.b1), BitSetNot(&f.b2)), &f.s3, ))
}
#[rustfmt::skip]
fn s143(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(par, op, f, (f.b1.clone(), atomic(&f.b2), ))
}
#[rustfmt::skip]
fn s144(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, (&f.s1, &f.s1, ))
}
#[rustfmt::skip]
fn s145(op: &str, f: &mut Fix) -> Out {
    f.need(&["w2"]);
    ops!(par, op, f, (&f.w.read_component::<JB>(), &f.w.read_component::<JB>(), ))
}
#[rustfmt::skip]
fn s146(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(par, op, f, (&f.b1, BitSetNot(&f.b1), ))
}
#[rustfmt::skip]
fn s147(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2"]);
    ops!(par, op, f, (f.e1.live_bitset(), &f.s2, ))
}
#[rustfmt::skip]
fn s148(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, (&f.s1, &f.s2, &f.s3, ))
}
#[rustfmt::skip]
fn s149(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, (&mut f.s1, &mut f.s2, &mut f.s3, ))
}
#[rustfmt::skip]
fn s150(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, (f.s1.guard(), &mut f.s2, &f.s3, ))
}
#[rustfmt::skip]
fn s151(op: &str, f: &mut Fix) -> Out {
    f.need(&["w1", "w2", "w3"]);
    ops!(par, op, f, (&f.w.read_component::<JA>(), &mut f.w.write_component::<JB>(), &mut f.w.write_component::<JC>(), ))
}
#[rustfmt::skip]
fn s152(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, (&f.b1, &f.b2, &f.b3, ))
}
#[rustfmt::skip]
fn s153(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2", "s3"]);
    ops!(par, op, f, (&f.e1, &f.s2, &mut f.s3, ))
}
#[rustfmt::skip]
fn s154(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2", "s3"]);
    ops!(par, op, f, (&f.e1, &mut f.s2, (&f.s3).maybe(), ))
}
#[rustfmt::skip]
fn s155(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, ((&f.s1).maybe(), &f.s2, (&mut f.s3).maybe(), ))
}
#[rustfmt::skip]
fn s156(op: &str, f: &mut Fix) -> Out {
    f.need(&["b2", "s1", "s3"]);
    ops!(par, op, f, (&f.s1, BitSetNot(&f.b2), &f.s3, ))
}
#[rustfmt::skip]
fn s157(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2", "s3"]);
    ops!(par, op, f, (BitSetNot(&f.b1), &f.s2, &f.s3, ))
}
#[rustfmt::skip]
fn s158(op: &str, f: &mut Fix) -> Out {
    f.need(&["b3", "s1", "s2"]);
    ops!(par, op, f, (&f.s1, &f.s2, BitSetNot(&f.b3), ))
}
#[rustfmt::skip]
fn s159(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s3"]);
    ops!(par, op, f, (BitSetNot(&f.b1), BitSetNot(&f.b2), &f.s3, ))
}
#[rustfmt::skip]
fn s160(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(par, op, f, (BitSetNot(&f.b1), BitSetNot(&f.b2), BitSetNot(&f.b3), ))
}
#[rustfmt::skip]
fn s161(op: &str, f: &mut Fix) -> Out {
    f.need(&["b3", "s2"]);
    ops!(par, op, f, (BitSetAll, &f.s2, BitSetNot(&f.b3), ))
}
#[rustfmt::skip]
fn s162(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, (BitSetAll, BitSetAll, &f.s1, ))
}
#[rustfmt::skip]
fn s163(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, (BitSetAll, BitSetAll, BitSetAll, ))
}
#[rustfmt::skip]
fn s164(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, ((&f.s1).maybe(), (&f.s2).maybe(), (&f.s3).maybe(), ))
}
#[rustfmt::skip]
fn s165(op: &str, f: &mut Fix) -> Out {
    f.need(&["b3", "s1", "s2"]);
    ops!(par, op, f, ((&f.s1).maybe(), (&f.s2).maybe(), &f.b3, ))
}
#[rustfmt::skip]
fn s166(op: &str, f: &mut Fix) -> Out {
    f.need(&["b3", "d", "s1", "s3"]);
    ops!(par, op, f, (&f.s1, f.s3.modified(), (&f.b3).maybe(), ))
}
#[rustfmt::skip]
fn s167(op: &str, f: &mut Fix) -> Out {
    f.need(&["d", "e1", "s2", "s3"]);
    ops!(par, op, f, (&f.e1, f.s3.modified_mut(), (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s168(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2", "s3"]);
    ops!(par, op, f, (&f.e1, (&mut f.s2).maybe(), (f.s3.guard()).maybe(), ))
}
#[rustfmt::skip]
fn s169(op: &str, f: &mut Fix) -> Out {
    f.need(&["n", "w2", "w3"]);
    ops!(par, op, f, (&f.w.entities(), (&mut f.w.write_component::<JB>()).maybe(), (f.w.write_component::<JC>().guard()).maybe(), ))
}
#[rustfmt::skip]
fn s170(op: &str, f: &mut Fix) -> Out {
    f.need(&["b3", "w1", "w2"]);
    ops!(par, op, f, (&f.w.read_component::<JA>(), (&f.w.read_component::<JB>()).maybe(), BitSetNot(&f.b3), ))
}
#[rustfmt::skip]
fn s171(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, (&f.s1, ))
}
#[rustfmt::skip]
fn s172(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, ((&f.s1, &f.s2, ), &f.s3, ))
}
#[rustfmt::skip]
fn s173(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, (&f.s1, (&f.s2, &f.s3, ), ))
}
#[rustfmt::skip]
fn s174(op: &str, f: &mut Fix) -> Out {
    f.need(&["b2", "b3", "s1"]);
    ops!(par, op, f, ((&mut f.s1, BitSetNot(&f.b2), ), (&f.b3, ), ))
}
#[rustfmt::skip]
fn s175(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "s3"]);
    ops!(par, op, f, (&f.s1, ((&f.s2, &f.s3, )).maybe(), ))
}
#[rustfmt::skip]
fn s176(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, ((&f.s1, &f.s2, )).maybe())
}
#[rustfmt::skip]
fn s177(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2", "s3"]);
    ops!(par, op, f, (&f.b1, ((&mut f.s2, (&f.s3).maybe(), )).maybe(), ))
}
#[rustfmt::skip]
fn s178(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(par, op, f, (((&f.s1, ), ), ))
}
#[rustfmt::skip]
fn s179(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s3"]);
    ops!(par, op, f, (((&f.b1, BitSetNot(&f.b2), )).maybe(), &f.s3, ))
}
#[rustfmt::skip]
fn s180(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(par, op, f, (BitSetAll, ))
}
#[rustfmt::skip]
fn s181(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2"]);
    ops!(par, op, f, ((BitSetAll, BitSetNot(&f.b1), ), ((&f.s2).maybe(), ), ))
}
#[rustfmt::skip]
fn s182(op: &str, f: &mut Fix) -> Out {
    f.need(&["e1", "s2", "s3"]);
    ops!(par, op, f, (&f.e1, ((&f.s2).maybe(), (&f.s3).maybe(), ), ))
}
#[rustfmt::skip]
fn s183(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(unchecked, op, f, &&f.b1 as &dyn BitSetLike)
}
#[rustfmt::skip]
fn s184(op: &str, f: &mut Fix) -> Out {
    f.need(&["a1"]);
    ops!(unchecked, op, f, &&f.a1 as &dyn BitSetLike)
}
#[rustfmt::skip]
fn s185(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1"]);
    ops!(unchecked, op, f, &BitSetNot(&f.b1) as &dyn BitSetLike)
}
#[rustfmt::skip]
fn s186(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(unchecked, op, f, &BitSetAnd(&f.b1, BitSetNot(&f.b2)) as &dyn BitSetLike)
}
#[rustfmt::skip]
fn s187(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(unchecked, op, f, &BitSetOr(&f.b1, &f.b2) as &dyn BitSetLike)
}
#[rustfmt::skip]
fn s188(op: &str, f: &mut Fix) -> Out {
    f.need(&[]);
    ops!(unchecked, op, f, &BitSetAll as &dyn BitSetLike)
}
#[rustfmt::skip]
fn s189(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2"]);
    ops!(unchecked, op, f, (&&f.b1 as &dyn BitSetLike, &f.s2, ))
}
#[rustfmt::skip]
fn s190(op: &str, f: &mut Fix) -> Out {
    f.need(&["b2", "s1"]);
    ops!(unchecked, op, f, (&f.s1, &BitSetNot(&f.b2) as &dyn BitSetLike, ))
}
#[rustfmt::skip]
fn s191(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2"]);
    ops!(unchecked, op, f, (&&f.b1 as &dyn BitSetLike, (&&f.b2 as &dyn BitSetLike).maybe(), ))
}
#[rustfmt::skip]
fn s192(op: &str, f: &mut Fix) -> Out {
    f.need(&["b2", "b3", "s1"]);
    ops!(unchecked, op, f, (&mut f.s1, &BitSetXor(&f.b2, &f.b3) as &dyn BitSetLike, ))
}
#[rustfmt::skip]
fn s193(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(unchecked, op, f, ((&f.s1).maybe(), &BitSetAll as &dyn BitSetLike, ))
}
#[rustfmt::skip]
fn s194(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "b3"]);
    ops!(unchecked, op, f, (&BitSetNot(&f.b1) as &dyn BitSetLike, &BitSetOr(&f.b2, &f.b3) as &dyn BitSetLike, ))
}
#[rustfmt::skip]
fn s195(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s196(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s197(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s198(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s199(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s200(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s201(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s202(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s203(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s204(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s205(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s206(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s207(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s208(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s209(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s210(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s211(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s212(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s213(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s214(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s215(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(seq, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b2, ))
}
#[rustfmt::skip]
fn s216(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.b2, ))
}
#[rustfmt::skip]
fn s217(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b2", "s1", "w2"]);
    ops!(par, op, f, (&f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, (&f.w.read_component::<JB>()).maybe(), &f.b1, &f.s1, &f.b2, ))
}
#[rustfmt::skip]
fn s218(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b3", "s2"]);
    ops!(par, op, f, (&f.b1, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s219(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "s2"]);
    ops!(par, op, f, (BitSetAll, (&f.s2).maybe(), &f.b1, BitSetAll, (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s220(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b3", "s2"]);
    ops!(seq, op, f, (BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), &f.b1, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, ))
}
#[rustfmt::skip]
fn s221(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b3", "s2"]);
    ops!(par, op, f, (&f.b1, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s222(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b3", "s2"]);
    ops!(par, op, f, (BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, &f.b1, BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), ))
}
#[rustfmt::skip]
fn s223(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b3", "s2"]);
    ops!(par, op, f, (BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, (&f.s2).maybe(), BitSetNot(&f.b3), BitSetAll, &f.b1, ))
}
#[rustfmt::skip]
fn s224(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(par, op, f, (BitSetAll, (&f.s1).maybe(), &mut f.s2, (&f.s1).maybe(), ))
}
#[rustfmt::skip]
fn s225(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(seq, op, f, (BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), ))
}
#[rustfmt::skip]
fn s226(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2", "w1", "w3"]);
    ops!(par, op, f, (&f.s1, &f.s2, &f.w.read_component::<JA>(), &f.w.read_component::<JC>(), ))
}
#[rustfmt::skip]
fn s227(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(seq, op, f, (BitSetAll, (&f.s1).maybe(), BitSetAll, &mut f.s2, BitSetAll, (&f.s1).maybe(), BitSetAll, ))
}
#[rustfmt::skip]
fn s228(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(seq, op, f, (BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, ))
}
#[rustfmt::skip]
fn s229(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "e2", "s1", "s2", "w1", "w2", "w3"]);
    ops!(par, op, f, (&f.s1, &f.s2, &f.w.read_component::<JA>(), &f.w.read_component::<JC>(), &f.b1, &f.e2, (&f.w.read_component::<JB>()).maybe(), ))
}
#[rustfmt::skip]
fn s230(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1", "s2"]);
    ops!(seq, op, f, (BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, &mut f.s2, BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), ))
}
#[rustfmt::skip]
fn s231(op: &str, f: &mut Fix) -> Out {
    f.need(&["s1"]);
    ops!(seq, op, f, (BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), BitSetAll, (&f.s1).maybe(), ))
}
#[rustfmt::skip]
fn s232(op: &str, f: &mut Fix) -> Out {
    f.need(&["b1", "b3", "e2", "s1", "s2", "s3", "w1", "w2", "w3"]);
    ops!(seq, op, f, (&f.s1, &f.s2, &f.w.read_component::<JA>(), &f.w.read_component::<JC>(), &f.b1, &f.e2, (&f.w.read_component::<JB>()).maybe(), (&f.s3).maybe(), (&f.b3).maybe(), BitSetNot(BitSetNot(&f.b1)), &f.s1, &f.s2, &f.w.read_component::<JA>(), &f.w.read_component::<JC>(), &f.b1, &f.e2, (&f.w.read_component::<JB>()).maybe(), (&f.s3).maybe(), (&f.b3).maybe(), BitSetNot(BitSetNot(&f.b1)), &f.s1, &f.s2, &f.w.read_component::<JA>(), &f.w.read_component::<JC>(), &f.b1, &f.e2, ))
}
