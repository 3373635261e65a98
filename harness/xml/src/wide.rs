// Generated: unions of every size up to 70, in both orders, whose k-th member accepts the numbers k and k + 1.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Only<const N: usize>(pub usize);
impl<const N: usize> FromStr for Only<N> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        [N, N + 1].into_iter().find(|k| k.to_string() == s).map(Only).ok_or_else(|| "another".to_string())
    }
}
impl<const N: usize> std::fmt::Display for Only<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
type O0 = Only<0>;
type O1 = Only<1>;
type O2 = Only<2>;
type O3 = Only<3>;
type O4 = Only<4>;
type O5 = Only<5>;
type O6 = Only<6>;
type O7 = Only<7>;
type O8 = Only<8>;
type O9 = Only<9>;
type O10 = Only<10>;
type O11 = Only<11>;
type O12 = Only<12>;
type O13 = Only<13>;
type O14 = Only<14>;
type O15 = Only<15>;
type O16 = Only<16>;
type O17 = Only<17>;
type O18 = Only<18>;
type O19 = Only<19>;
type O20 = Only<20>;
type O21 = Only<21>;
type O22 = Only<22>;
type O23 = Only<23>;
type O24 = Only<24>;
type O25 = Only<25>;
type O26 = Only<26>;
type O27 = Only<27>;
type O28 = Only<28>;
type O29 = Only<29>;
type O30 = Only<30>;
type O31 = Only<31>;
type O32 = Only<32>;
type O33 = Only<33>;
type O34 = Only<34>;
type O35 = Only<35>;
type O36 = Only<36>;
type O37 = Only<37>;
type O38 = Only<38>;
type O39 = Only<39>;
type O40 = Only<40>;
type O41 = Only<41>;
type O42 = Only<42>;
type O43 = Only<43>;
type O44 = Only<44>;
type O45 = Only<45>;
type O46 = Only<46>;
type O47 = Only<47>;
type O48 = Only<48>;
type O49 = Only<49>;
type O50 = Only<50>;
type O51 = Only<51>;
type O52 = Only<52>;
type O53 = Only<53>;
type O54 = Only<54>;
type O55 = Only<55>;
type O56 = Only<56>;
type O57 = Only<57>;
type O58 = Only<58>;
type O59 = Only<59>;
type O60 = Only<60>;
type O61 = Only<61>;
type O62 = Only<62>;
type O63 = Only<63>;
type O64 = Only<64>;
type O65 = Only<65>;
type O66 = Only<66>;
type O67 = Only<67>;
type O68 = Only<68>;
type O69 = Only<69>;
selections! {
    wide
    Up1U { M0(O0) }
    Up2U { M0(O0), M1(O1) }
    Down2U { M1(O1), M0(O0) }
    Up3U { M0(O0), M1(O1), M2(O2) }
    Down3U { M2(O2), M1(O1), M0(O0) }
    Up4U { M0(O0), M1(O1), M2(O2), M3(O3) }
    Up5U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4) }
    Down5U { M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up6U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5) }
    Up7U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6) }
    Up8U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7) }
    Down8U { M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up9U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8) }
    Down9U { M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up10U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9) }
    Up11U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10) }
    Up12U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11) }
    Down12U { M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up13U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12) }
    Down13U { M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up14U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13) }
    Up15U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14) }
    Up16U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15) }
    Down16U { M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up17U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16) }
    Down17U { M16(O16), M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up18U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17) }
    Up19U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18) }
    Up20U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19) }
    Up21U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20) }
    Up22U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21) }
    Up23U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22) }
    Up24U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23) }
    Up25U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24) }
    Up26U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25) }
    Up27U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26) }
    Up28U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27) }
    Up29U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28) }
    Up30U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29) }
    Up31U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30) }
    Up32U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31) }
    Down32U { M31(O31), M30(O30), M29(O29), M28(O28), M27(O27), M26(O26), M25(O25), M24(O24), M23(O23), M22(O22), M21(O21), M20(O20), M19(O19), M18(O18), M17(O17), M16(O16), M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up33U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32) }
    Down33U { M32(O32), M31(O31), M30(O30), M29(O29), M28(O28), M27(O27), M26(O26), M25(O25), M24(O24), M23(O23), M22(O22), M21(O21), M20(O20), M19(O19), M18(O18), M17(O17), M16(O16), M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up34U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33) }
    Up35U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34) }
    Up36U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35) }
    Up37U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36) }
    Up38U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37) }
    Up39U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38) }
    Up40U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39) }
    Up41U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40) }
    Up42U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41) }
    Up43U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42) }
    Up44U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43) }
    Up45U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44) }
    Up46U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45) }
    Up47U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46) }
    Up48U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47) }
    Up49U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48) }
    Up50U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49) }
    Up51U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50) }
    Up52U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51) }
    Up53U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52) }
    Up54U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53) }
    Up55U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54) }
    Up56U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55) }
    Up57U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56) }
    Up58U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57) }
    Up59U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58) }
    Up60U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59) }
    Up61U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60) }
    Up62U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61) }
    Up63U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62) }
    Up64U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63) }
    Down64U { M63(O63), M62(O62), M61(O61), M60(O60), M59(O59), M58(O58), M57(O57), M56(O56), M55(O55), M54(O54), M53(O53), M52(O52), M51(O51), M50(O50), M49(O49), M48(O48), M47(O47), M46(O46), M45(O45), M44(O44), M43(O43), M42(O42), M41(O41), M40(O40), M39(O39), M38(O38), M37(O37), M36(O36), M35(O35), M34(O34), M33(O33), M32(O32), M31(O31), M30(O30), M29(O29), M28(O28), M27(O27), M26(O26), M25(O25), M24(O24), M23(O23), M22(O22), M21(O21), M20(O20), M19(O19), M18(O18), M17(O17), M16(O16), M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up65U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63), M64(O64) }
    Down65U { M64(O64), M63(O63), M62(O62), M61(O61), M60(O60), M59(O59), M58(O58), M57(O57), M56(O56), M55(O55), M54(O54), M53(O53), M52(O52), M51(O51), M50(O50), M49(O49), M48(O48), M47(O47), M46(O46), M45(O45), M44(O44), M43(O43), M42(O42), M41(O41), M40(O40), M39(O39), M38(O38), M37(O37), M36(O36), M35(O35), M34(O34), M33(O33), M32(O32), M31(O31), M30(O30), M29(O29), M28(O28), M27(O27), M26(O26), M25(O25), M24(O24), M23(O23), M22(O22), M21(O21), M20(O20), M19(O19), M18(O18), M17(O17), M16(O16), M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
    Up66U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63), M64(O64), M65(O65) }
    Up67U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63), M64(O64), M65(O65), M66(O66) }
    Up68U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63), M64(O64), M65(O65), M66(O66), M67(O67) }
    Up69U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63), M64(O64), M65(O65), M66(O66), M67(O67), M68(O68) }
    Up70U { M0(O0), M1(O1), M2(O2), M3(O3), M4(O4), M5(O5), M6(O6), M7(O7), M8(O8), M9(O9), M10(O10), M11(O11), M12(O12), M13(O13), M14(O14), M15(O15), M16(O16), M17(O17), M18(O18), M19(O19), M20(O20), M21(O21), M22(O22), M23(O23), M24(O24), M25(O25), M26(O26), M27(O27), M28(O28), M29(O29), M30(O30), M31(O31), M32(O32), M33(O33), M34(O34), M35(O35), M36(O36), M37(O37), M38(O38), M39(O39), M40(O40), M41(O41), M42(O42), M43(O43), M44(O44), M45(O45), M46(O46), M47(O47), M48(O48), M49(O49), M50(O50), M51(O51), M52(O52), M53(O53), M54(O54), M55(O55), M56(O56), M57(O57), M58(O58), M59(O59), M60(O60), M61(O61), M62(O62), M63(O63), M64(O64), M65(O65), M66(O66), M67(O67), M68(O68), M69(O69) }
    Down70U { M69(O69), M68(O68), M67(O67), M66(O66), M65(O65), M64(O64), M63(O63), M62(O62), M61(O61), M60(O60), M59(O59), M58(O58), M57(O57), M56(O56), M55(O55), M54(O54), M53(O53), M52(O52), M51(O51), M50(O50), M49(O49), M48(O48), M47(O47), M46(O46), M45(O45), M44(O44), M43(O43), M42(O42), M41(O41), M40(O40), M39(O39), M38(O38), M37(O37), M36(O36), M35(O35), M34(O34), M33(O33), M32(O32), M31(O31), M30(O30), M29(O29), M28(O28), M27(O27), M26(O26), M25(O25), M24(O24), M23(O23), M22(O22), M21(O21), M20(O20), M19(O19), M18(O18), M17(O17), M16(O16), M15(O15), M14(O14), M13(O13), M12(O12), M11(O11), M10(O10), M9(O9), M8(O8), M7(O7), M6(O6), M5(O5), M4(O4), M3(O3), M2(O2), M1(O1), M0(O0) }
}
