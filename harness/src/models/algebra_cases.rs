// Written by tools/gen_algebra.py.
pub static NAMES: &[fn() -> Name] = &[
    n::<t::U0, t::Ux0, t::Ub0, UTerm>,
    n::<t::U1, t::Ux1, t::Ub1, UInt<UTerm, B1>>,
    n::<t::U2, t::Ux2, t::Ub10, UInt<UInt<UTerm, B1>, B0>>,
    n::<t::U3, t::Ux3, t::Ub11, UInt<UInt<UTerm, B1>, B1>>,
    n::<t::U4, t::Ux4, t::Ub100, UInt<UInt<UInt<UTerm, B1>, B0>, B0>>,
    n::<t::U5, t::Ux5, t::Ub101, UInt<UInt<UInt<UTerm, B1>, B0>, B1>>,
    n::<t::U6, t::Ux6, t::Ub110, UInt<UInt<UInt<UTerm, B1>, B1>, B0>>,
    n::<t::U7, t::Ux7, t::Ub111, UInt<UInt<UInt<UTerm, B1>, B1>, B1>>,
    n::<t::U8, t::Ux8, t::Ub1000, UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>>,
    n::<t::U9, t::Ux9, t::Ub1001, UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>>,
    n::<t::U10, t::UxA, t::Ub1010, UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>>,
    n::<t::U11, t::UxB, t::Ub1011, UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>>,
    n::<t::U12, t::UxC, t::Ub1100, UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>>,
    n::<t::U13, t::UxD, t::Ub1101, UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>>,
    n::<t::U14, t::UxE, t::Ub1110, UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>>,
    n::<t::U15, t::UxF, t::Ub1111, UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>>,
    n::<t::U16, t::Ux10, t::Ub10000, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>>,
    n::<t::U17, t::Ux11, t::Ub10001, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>>,
    n::<t::U18, t::Ux12, t::Ub10010, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>>,
    n::<t::U19, t::Ux13, t::Ub10011, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>>,
    n::<t::U20, t::Ux14, t::Ub10100, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>>,
    n::<t::U21, t::Ux15, t::Ub10101, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>>,
    n::<t::U22, t::Ux16, t::Ub10110, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>>,
    n::<t::U23, t::Ux17, t::Ub10111, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>>,
    n::<t::U24, t::Ux18, t::Ub11000, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>>,
    n::<t::U25, t::Ux19, t::Ub11001, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>>,
    n::<t::U26, t::Ux1A, t::Ub11010, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>>,
    n::<t::U27, t::Ux1B, t::Ub11011, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>>,
    n::<t::U28, t::Ux1C, t::Ub11100, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>>,
    n::<t::U29, t::Ux1D, t::Ub11101, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>>,
    n::<t::U30, t::Ux1E, t::Ub11110, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>>,
    n::<t::U31, t::Ux1F, t::Ub11111, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>>,
    n::<t::U32, t::Ux20, t::Ub100000, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>>,
    n::<t::U33, t::Ux21, t::Ub100001, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B1>>,
    n::<t::U34, t::Ux22, t::Ub100010, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B0>>,
    n::<t::U35, t::Ux23, t::Ub100011, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>>,
    n::<t::U36, t::Ux24, t::Ub100100, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B0>>,
    n::<t::U37, t::Ux25, t::Ub100101, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>>,
    n::<t::U38, t::Ux26, t::Ub100110, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B0>>,
    n::<t::U39, t::Ux27, t::Ub100111, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B1>>,
    n::<t::U40, t::Ux28, t::Ub101000, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>, B0>>,
    n::<t::U41, t::Ux29, t::Ub101001, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>, B1>>,
    n::<t::U42, t::Ux2A, t::Ub101010, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>>,
    n::<t::U43, t::Ux2B, t::Ub101011, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B1>>,
    n::<t::U44, t::Ux2C, t::Ub101100, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B0>>,
    n::<t::U45, t::Ux2D, t::Ub101101, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B1>>,
    n::<t::U46, t::Ux2E, t::Ub101110, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>, B0>>,
    n::<t::U47, t::Ux2F, t::Ub101111, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>, B1>>,
    n::<t::U48, t::Ux30, t::Ub110000, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B0>>,
    n::<t::U49, t::Ux31, t::Ub110001, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B1>>,
    n::<t::U50, t::Ux32, t::Ub110010, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B0>>,
    n::<t::U51, t::Ux33, t::Ub110011, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>>,
    n::<t::U52, t::Ux34, t::Ub110100, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B0>>,
    n::<t::U53, t::Ux35, t::Ub110101, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>>,
    n::<t::U54, t::Ux36, t::Ub110110, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B0>>,
    n::<t::U55, t::Ux37, t::Ub110111, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>>,
    n::<t::U56, t::Ux38, t::Ub111000, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B0>>,
    n::<t::U57, t::Ux39, t::Ub111001, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B1>>,
    n::<t::U58, t::Ux3A, t::Ub111010, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B0>>,
    n::<t::U59, t::Ux3B, t::Ub111011, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>>,
    n::<t::U60, t::Ux3C, t::Ub111100, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B0>>,
    n::<t::U61, t::Ux3D, t::Ub111101, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>>,
    n::<t::U62, t::Ux3E, t::Ub111110, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>>,
    n::<t::U63, t::Ux3F, t::Ub111111, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>>,
    n::<t::U64, t::Ux40, t::Ub1000000, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>>,
    n::<t::U65, t::Ux41, t::Ub1000001, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B1>>,
    n::<t::U100, t::Ux64, t::Ub1100100, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B0>, B0>>,
    n::<t::U127, t::Ux7F, t::Ub1111111, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>>,
    n::<t::U128, t::Ux80, t::Ub10000000, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    n::<t::U129, t::Ux81, t::Ub10000001, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>>,
    n::<t::U254, t::UxFE, t::Ub11111110, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>>,
    n::<t::U255, t::UxFF, t::Ub11111111, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>>,
    n::<t::U256, t::Ux100, t::Ub100000000, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    n::<t::U257, t::Ux101, t::Ub100000001, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>>,
    n::<t::U511, t::Ux1FF, t::Ub111111111, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>>,
    n::<t::U512, t::Ux200, t::Ub1000000000, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    n::<t::U513, t::Ux201, t::Ub1000000001, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>>,
    n::<t::U729, t::Ux2D9, t::Ub1011011001, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>>,
    n::<t::U998, t::Ux3E6, t::Ub1111100110, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>>,
    n::<t::U999, t::Ux3E7, t::Ub1111100111, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>>,
    n::<t::U1000, t::Ux3E8, t::Ub1111101000, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>>,
];
pub static IDS: &[fn() -> (u128, TypeId)] = &[
    id::<t::U0>,
    id::<t::U1>,
    id::<t::U2>,
    id::<t::U3>,
    id::<t::U4>,
    id::<t::U5>,
    id::<t::U6>,
    id::<t::U7>,
    id::<t::U8>,
    id::<t::U9>,
    id::<t::U10>,
    id::<t::U11>,
    id::<t::U12>,
    id::<t::U13>,
    id::<t::U14>,
    id::<t::U15>,
    id::<t::U16>,
    id::<t::U17>,
    id::<t::U18>,
    id::<t::U19>,
    id::<t::U20>,
    id::<t::U21>,
    id::<t::U22>,
    id::<t::U23>,
    id::<t::U24>,
    id::<t::U25>,
    id::<t::U26>,
    id::<t::U27>,
    id::<t::U28>,
    id::<t::U29>,
    id::<t::U30>,
    id::<t::U31>,
    id::<t::U32>,
    id::<t::U33>,
    id::<t::U34>,
    id::<t::U35>,
    id::<t::U36>,
    id::<t::U37>,
    id::<t::U38>,
    id::<t::U39>,
    id::<t::U40>,
    id::<t::U41>,
    id::<t::U42>,
    id::<t::U43>,
    id::<t::U44>,
    id::<t::U45>,
    id::<t::U46>,
    id::<t::U47>,
    id::<t::U48>,
    id::<t::U49>,
    id::<t::U50>,
    id::<t::U51>,
    id::<t::U52>,
    id::<t::U53>,
    id::<t::U54>,
    id::<t::U55>,
    id::<t::U56>,
    id::<t::U57>,
    id::<t::U58>,
    id::<t::U59>,
    id::<t::U60>,
    id::<t::U61>,
    id::<t::U62>,
    id::<t::U63>,
    id::<t::U64>,
    id::<t::U65>,
    id::<t::U66>,
    id::<t::U67>,
    id::<t::U68>,
    id::<t::U69>,
    id::<t::U70>,
    id::<t::U71>,
    id::<t::U72>,
    id::<t::U73>,
    id::<t::U74>,
    id::<t::U75>,
    id::<t::U76>,
    id::<t::U77>,
    id::<t::U78>,
    id::<t::U79>,
    id::<t::U80>,
    id::<t::U81>,
    id::<t::U82>,
    id::<t::U83>,
    id::<t::U84>,
    id::<t::U85>,
    id::<t::U86>,
    id::<t::U87>,
    id::<t::U88>,
    id::<t::U89>,
    id::<t::U90>,
    id::<t::U91>,
    id::<t::U92>,
    id::<t::U93>,
    id::<t::U94>,
    id::<t::U95>,
    id::<t::U96>,
    id::<t::U97>,
    id::<t::U98>,
    id::<t::U99>,
    id::<t::U100>,
    id::<t::U101>,
    id::<t::U102>,
    id::<t::U103>,
    id::<t::U104>,
    id::<t::U105>,
    id::<t::U106>,
    id::<t::U107>,
    id::<t::U108>,
    id::<t::U109>,
    id::<t::U110>,
    id::<t::U111>,
    id::<t::U112>,
    id::<t::U113>,
    id::<t::U114>,
    id::<t::U115>,
    id::<t::U116>,
    id::<t::U117>,
    id::<t::U118>,
    id::<t::U119>,
    id::<t::U120>,
    id::<t::U121>,
    id::<t::U122>,
    id::<t::U123>,
    id::<t::U124>,
    id::<t::U125>,
    id::<t::U126>,
    id::<t::U127>,
    id::<t::U128>,
    id::<t::U129>,
    id::<t::U130>,
    id::<t::U131>,
    id::<t::U132>,
    id::<t::U133>,
    id::<t::U134>,
    id::<t::U135>,
    id::<t::U136>,
    id::<t::U137>,
    id::<t::U138>,
    id::<t::U139>,
    id::<t::U140>,
    id::<t::U141>,
    id::<t::U142>,
    id::<t::U143>,
    id::<t::U144>,
    id::<t::U145>,
    id::<t::U146>,
    id::<t::U147>,
    id::<t::U148>,
    id::<t::U149>,
    id::<t::U150>,
    id::<t::U151>,
    id::<t::U152>,
    id::<t::U153>,
    id::<t::U154>,
    id::<t::U155>,
    id::<t::U156>,
    id::<t::U157>,
    id::<t::U158>,
    id::<t::U159>,
    id::<t::U160>,
    id::<t::U161>,
    id::<t::U162>,
    id::<t::U163>,
    id::<t::U164>,
    id::<t::U165>,
    id::<t::U166>,
    id::<t::U167>,
    id::<t::U168>,
    id::<t::U169>,
    id::<t::U170>,
    id::<t::U171>,
    id::<t::U172>,
    id::<t::U173>,
    id::<t::U174>,
    id::<t::U175>,
    id::<t::U176>,
    id::<t::U177>,
    id::<t::U178>,
    id::<t::U179>,
    id::<t::U180>,
    id::<t::U181>,
    id::<t::U182>,
    id::<t::U183>,
    id::<t::U184>,
    id::<t::U185>,
    id::<t::U186>,
    id::<t::U187>,
    id::<t::U188>,
    id::<t::U189>,
    id::<t::U190>,
    id::<t::U191>,
    id::<t::U192>,
    id::<t::U193>,
    id::<t::U194>,
    id::<t::U195>,
    id::<t::U196>,
    id::<t::U197>,
    id::<t::U198>,
    id::<t::U199>,
    id::<t::U200>,
    id::<t::U201>,
    id::<t::U202>,
    id::<t::U203>,
    id::<t::U204>,
    id::<t::U205>,
    id::<t::U206>,
    id::<t::U207>,
    id::<t::U208>,
    id::<t::U209>,
    id::<t::U210>,
    id::<t::U211>,
    id::<t::U212>,
    id::<t::U213>,
    id::<t::U214>,
    id::<t::U215>,
    id::<t::U216>,
    id::<t::U217>,
    id::<t::U218>,
    id::<t::U219>,
    id::<t::U220>,
    id::<t::U221>,
    id::<t::U222>,
    id::<t::U223>,
    id::<t::U224>,
    id::<t::U225>,
    id::<t::U226>,
    id::<t::U227>,
    id::<t::U228>,
    id::<t::U229>,
    id::<t::U230>,
    id::<t::U231>,
    id::<t::U232>,
    id::<t::U233>,
    id::<t::U234>,
    id::<t::U235>,
    id::<t::U236>,
    id::<t::U237>,
    id::<t::U238>,
    id::<t::U239>,
    id::<t::U240>,
    id::<t::U241>,
    id::<t::U242>,
    id::<t::U243>,
    id::<t::U244>,
    id::<t::U245>,
    id::<t::U246>,
    id::<t::U247>,
    id::<t::U248>,
    id::<t::U249>,
    id::<t::U250>,
    id::<t::U251>,
    id::<t::U252>,
    id::<t::U253>,
    id::<t::U254>,
    id::<t::U255>,
    id::<t::U256>,
    id::<t::U257>,
    id::<t::U258>,
    id::<t::U259>,
    id::<t::U260>,
    id::<t::U261>,
    id::<t::U262>,
    id::<t::U263>,
    id::<t::U264>,
    id::<t::U265>,
    id::<t::U266>,
    id::<t::U267>,
    id::<t::U268>,
    id::<t::U269>,
    id::<t::U270>,
    id::<t::U271>,
    id::<t::U272>,
    id::<t::U273>,
    id::<t::U274>,
    id::<t::U275>,
    id::<t::U276>,
    id::<t::U277>,
    id::<t::U278>,
    id::<t::U279>,
    id::<t::U280>,
    id::<t::U281>,
    id::<t::U282>,
    id::<t::U283>,
    id::<t::U284>,
    id::<t::U285>,
    id::<t::U286>,
    id::<t::U287>,
    id::<t::U288>,
    id::<t::U289>,
    id::<t::U290>,
    id::<t::U291>,
    id::<t::U292>,
    id::<t::U293>,
    id::<t::U294>,
    id::<t::U295>,
    id::<t::U296>,
    id::<t::U297>,
    id::<t::U298>,
    id::<t::U299>,
    id::<t::U300>,
    id::<t::U301>,
    id::<t::U302>,
    id::<t::U303>,
    id::<t::U304>,
    id::<t::U305>,
    id::<t::U306>,
    id::<t::U307>,
    id::<t::U308>,
    id::<t::U309>,
    id::<t::U310>,
    id::<t::U311>,
    id::<t::U312>,
    id::<t::U313>,
    id::<t::U314>,
    id::<t::U315>,
    id::<t::U316>,
    id::<t::U317>,
    id::<t::U318>,
    id::<t::U319>,
    id::<t::U320>,
    id::<t::U321>,
    id::<t::U322>,
    id::<t::U323>,
    id::<t::U324>,
    id::<t::U325>,
    id::<t::U326>,
    id::<t::U327>,
    id::<t::U328>,
    id::<t::U329>,
    id::<t::U330>,
    id::<t::U331>,
    id::<t::U332>,
    id::<t::U333>,
    id::<t::U334>,
    id::<t::U335>,
    id::<t::U336>,
    id::<t::U337>,
    id::<t::U338>,
    id::<t::U339>,
    id::<t::U340>,
    id::<t::U341>,
    id::<t::U342>,
    id::<t::U343>,
    id::<t::U344>,
    id::<t::U345>,
    id::<t::U346>,
    id::<t::U347>,
    id::<t::U348>,
    id::<t::U349>,
    id::<t::U350>,
    id::<t::U351>,
    id::<t::U352>,
    id::<t::U353>,
    id::<t::U354>,
    id::<t::U355>,
    id::<t::U356>,
    id::<t::U357>,
    id::<t::U358>,
    id::<t::U359>,
    id::<t::U360>,
    id::<t::U361>,
    id::<t::U362>,
    id::<t::U363>,
    id::<t::U364>,
    id::<t::U365>,
    id::<t::U366>,
    id::<t::U367>,
    id::<t::U368>,
    id::<t::U369>,
    id::<t::U370>,
    id::<t::U371>,
    id::<t::U372>,
    id::<t::U373>,
    id::<t::U374>,
    id::<t::U375>,
    id::<t::U376>,
    id::<t::U377>,
    id::<t::U378>,
    id::<t::U379>,
    id::<t::U380>,
    id::<t::U381>,
    id::<t::U382>,
    id::<t::U383>,
    id::<t::U384>,
    id::<t::U385>,
    id::<t::U386>,
    id::<t::U387>,
    id::<t::U388>,
    id::<t::U389>,
    id::<t::U390>,
    id::<t::U391>,
    id::<t::U392>,
    id::<t::U393>,
    id::<t::U394>,
    id::<t::U395>,
    id::<t::U396>,
    id::<t::U397>,
    id::<t::U398>,
    id::<t::U399>,
    id::<t::U400>,
    id::<t::U401>,
    id::<t::U402>,
    id::<t::U403>,
    id::<t::U404>,
    id::<t::U405>,
    id::<t::U406>,
    id::<t::U407>,
    id::<t::U408>,
    id::<t::U409>,
    id::<t::U410>,
    id::<t::U411>,
    id::<t::U412>,
    id::<t::U413>,
    id::<t::U414>,
    id::<t::U415>,
    id::<t::U416>,
    id::<t::U417>,
    id::<t::U418>,
    id::<t::U419>,
    id::<t::U420>,
    id::<t::U421>,
    id::<t::U422>,
    id::<t::U423>,
    id::<t::U424>,
    id::<t::U425>,
    id::<t::U426>,
    id::<t::U427>,
    id::<t::U428>,
    id::<t::U429>,
    id::<t::U430>,
    id::<t::U431>,
    id::<t::U432>,
    id::<t::U433>,
    id::<t::U434>,
    id::<t::U435>,
    id::<t::U436>,
    id::<t::U437>,
    id::<t::U438>,
    id::<t::U439>,
    id::<t::U440>,
    id::<t::U441>,
    id::<t::U442>,
    id::<t::U443>,
    id::<t::U444>,
    id::<t::U445>,
    id::<t::U446>,
    id::<t::U447>,
    id::<t::U448>,
    id::<t::U449>,
    id::<t::U450>,
    id::<t::U451>,
    id::<t::U452>,
    id::<t::U453>,
    id::<t::U454>,
    id::<t::U455>,
    id::<t::U456>,
    id::<t::U457>,
    id::<t::U458>,
    id::<t::U459>,
    id::<t::U460>,
    id::<t::U461>,
    id::<t::U462>,
    id::<t::U463>,
    id::<t::U464>,
    id::<t::U465>,
    id::<t::U466>,
    id::<t::U467>,
    id::<t::U468>,
    id::<t::U469>,
    id::<t::U470>,
    id::<t::U471>,
    id::<t::U472>,
    id::<t::U473>,
    id::<t::U474>,
    id::<t::U475>,
    id::<t::U476>,
    id::<t::U477>,
    id::<t::U478>,
    id::<t::U479>,
    id::<t::U480>,
    id::<t::U481>,
    id::<t::U482>,
    id::<t::U483>,
    id::<t::U484>,
    id::<t::U485>,
    id::<t::U486>,
    id::<t::U487>,
    id::<t::U488>,
    id::<t::U489>,
    id::<t::U490>,
    id::<t::U491>,
    id::<t::U492>,
    id::<t::U493>,
    id::<t::U494>,
    id::<t::U495>,
    id::<t::U496>,
    id::<t::U497>,
    id::<t::U498>,
    id::<t::U499>,
    id::<t::U500>,
    id::<t::U501>,
    id::<t::U502>,
    id::<t::U503>,
    id::<t::U504>,
    id::<t::U505>,
    id::<t::U506>,
    id::<t::U507>,
    id::<t::U508>,
    id::<t::U509>,
    id::<t::U510>,
    id::<t::U511>,
    id::<t::U512>,
    id::<t::U513>,
    id::<t::U514>,
    id::<t::U515>,
    id::<t::U516>,
    id::<t::U517>,
    id::<t::U518>,
    id::<t::U519>,
    id::<t::U520>,
    id::<t::U521>,
    id::<t::U522>,
    id::<t::U523>,
    id::<t::U524>,
    id::<t::U525>,
    id::<t::U526>,
    id::<t::U527>,
    id::<t::U528>,
    id::<t::U529>,
    id::<t::U530>,
    id::<t::U531>,
    id::<t::U532>,
    id::<t::U533>,
    id::<t::U534>,
    id::<t::U535>,
    id::<t::U536>,
    id::<t::U537>,
    id::<t::U538>,
    id::<t::U539>,
    id::<t::U540>,
    id::<t::U541>,
    id::<t::U542>,
    id::<t::U543>,
    id::<t::U544>,
    id::<t::U545>,
    id::<t::U546>,
    id::<t::U547>,
    id::<t::U548>,
    id::<t::U549>,
    id::<t::U550>,
    id::<t::U551>,
    id::<t::U552>,
    id::<t::U553>,
    id::<t::U554>,
    id::<t::U555>,
    id::<t::U556>,
    id::<t::U557>,
    id::<t::U558>,
    id::<t::U559>,
    id::<t::U560>,
    id::<t::U561>,
    id::<t::U562>,
    id::<t::U563>,
    id::<t::U564>,
    id::<t::U565>,
    id::<t::U566>,
    id::<t::U567>,
    id::<t::U568>,
    id::<t::U569>,
    id::<t::U570>,
    id::<t::U571>,
    id::<t::U572>,
    id::<t::U573>,
    id::<t::U574>,
    id::<t::U575>,
    id::<t::U576>,
    id::<t::U577>,
    id::<t::U578>,
    id::<t::U579>,
    id::<t::U580>,
    id::<t::U581>,
    id::<t::U582>,
    id::<t::U583>,
    id::<t::U584>,
    id::<t::U585>,
    id::<t::U586>,
    id::<t::U587>,
    id::<t::U588>,
    id::<t::U589>,
    id::<t::U590>,
    id::<t::U591>,
    id::<t::U592>,
    id::<t::U593>,
    id::<t::U594>,
    id::<t::U595>,
    id::<t::U596>,
    id::<t::U597>,
    id::<t::U598>,
    id::<t::U599>,
    id::<t::U600>,
    id::<t::U601>,
    id::<t::U602>,
    id::<t::U603>,
    id::<t::U604>,
    id::<t::U605>,
    id::<t::U606>,
    id::<t::U607>,
    id::<t::U608>,
    id::<t::U609>,
    id::<t::U610>,
    id::<t::U611>,
    id::<t::U612>,
    id::<t::U613>,
    id::<t::U614>,
    id::<t::U615>,
    id::<t::U616>,
    id::<t::U617>,
    id::<t::U618>,
    id::<t::U619>,
    id::<t::U620>,
    id::<t::U621>,
    id::<t::U622>,
    id::<t::U623>,
    id::<t::U624>,
    id::<t::U625>,
    id::<t::U626>,
    id::<t::U627>,
    id::<t::U628>,
    id::<t::U629>,
    id::<t::U630>,
    id::<t::U631>,
    id::<t::U632>,
    id::<t::U633>,
    id::<t::U634>,
    id::<t::U635>,
    id::<t::U636>,
    id::<t::U637>,
    id::<t::U638>,
    id::<t::U639>,
    id::<t::U640>,
    id::<t::U641>,
    id::<t::U642>,
    id::<t::U643>,
    id::<t::U644>,
    id::<t::U645>,
    id::<t::U646>,
    id::<t::U647>,
    id::<t::U648>,
    id::<t::U649>,
    id::<t::U650>,
    id::<t::U651>,
    id::<t::U652>,
    id::<t::U653>,
    id::<t::U654>,
    id::<t::U655>,
    id::<t::U656>,
    id::<t::U657>,
    id::<t::U658>,
    id::<t::U659>,
    id::<t::U660>,
    id::<t::U661>,
    id::<t::U662>,
    id::<t::U663>,
    id::<t::U664>,
    id::<t::U665>,
    id::<t::U666>,
    id::<t::U667>,
    id::<t::U668>,
    id::<t::U669>,
    id::<t::U670>,
    id::<t::U671>,
    id::<t::U672>,
    id::<t::U673>,
    id::<t::U674>,
    id::<t::U675>,
    id::<t::U676>,
    id::<t::U677>,
    id::<t::U678>,
    id::<t::U679>,
    id::<t::U680>,
    id::<t::U681>,
    id::<t::U682>,
    id::<t::U683>,
    id::<t::U684>,
    id::<t::U685>,
    id::<t::U686>,
    id::<t::U687>,
    id::<t::U688>,
    id::<t::U689>,
    id::<t::U690>,
    id::<t::U691>,
    id::<t::U692>,
    id::<t::U693>,
    id::<t::U694>,
    id::<t::U695>,
    id::<t::U696>,
    id::<t::U697>,
    id::<t::U698>,
    id::<t::U699>,
    id::<t::U700>,
    id::<t::U701>,
    id::<t::U702>,
    id::<t::U703>,
    id::<t::U704>,
    id::<t::U705>,
    id::<t::U706>,
    id::<t::U707>,
    id::<t::U708>,
    id::<t::U709>,
    id::<t::U710>,
    id::<t::U711>,
    id::<t::U712>,
    id::<t::U713>,
    id::<t::U714>,
    id::<t::U715>,
    id::<t::U716>,
    id::<t::U717>,
    id::<t::U718>,
    id::<t::U719>,
    id::<t::U720>,
    id::<t::U721>,
    id::<t::U722>,
    id::<t::U723>,
    id::<t::U724>,
    id::<t::U725>,
    id::<t::U726>,
    id::<t::U727>,
    id::<t::U728>,
    id::<t::U729>,
    id::<t::U730>,
    id::<t::U731>,
    id::<t::U732>,
    id::<t::U733>,
    id::<t::U734>,
    id::<t::U735>,
    id::<t::U736>,
    id::<t::U737>,
    id::<t::U738>,
    id::<t::U739>,
    id::<t::U740>,
    id::<t::U741>,
    id::<t::U742>,
    id::<t::U743>,
    id::<t::U744>,
    id::<t::U745>,
    id::<t::U746>,
    id::<t::U747>,
    id::<t::U748>,
    id::<t::U749>,
    id::<t::U750>,
    id::<t::U751>,
    id::<t::U752>,
    id::<t::U753>,
    id::<t::U754>,
    id::<t::U755>,
    id::<t::U756>,
    id::<t::U757>,
    id::<t::U758>,
    id::<t::U759>,
    id::<t::U760>,
    id::<t::U761>,
    id::<t::U762>,
    id::<t::U763>,
    id::<t::U764>,
    id::<t::U765>,
    id::<t::U766>,
    id::<t::U767>,
    id::<t::U768>,
    id::<t::U769>,
    id::<t::U770>,
    id::<t::U771>,
    id::<t::U772>,
    id::<t::U773>,
    id::<t::U774>,
    id::<t::U775>,
    id::<t::U776>,
    id::<t::U777>,
    id::<t::U778>,
    id::<t::U779>,
    id::<t::U780>,
    id::<t::U781>,
    id::<t::U782>,
    id::<t::U783>,
    id::<t::U784>,
    id::<t::U785>,
    id::<t::U786>,
    id::<t::U787>,
    id::<t::U788>,
    id::<t::U789>,
    id::<t::U790>,
    id::<t::U791>,
    id::<t::U792>,
    id::<t::U793>,
    id::<t::U794>,
    id::<t::U795>,
    id::<t::U796>,
    id::<t::U797>,
    id::<t::U798>,
    id::<t::U799>,
    id::<t::U800>,
    id::<t::U801>,
    id::<t::U802>,
    id::<t::U803>,
    id::<t::U804>,
    id::<t::U805>,
    id::<t::U806>,
    id::<t::U807>,
    id::<t::U808>,
    id::<t::U809>,
    id::<t::U810>,
    id::<t::U811>,
    id::<t::U812>,
    id::<t::U813>,
    id::<t::U814>,
    id::<t::U815>,
    id::<t::U816>,
    id::<t::U817>,
    id::<t::U818>,
    id::<t::U819>,
    id::<t::U820>,
    id::<t::U821>,
    id::<t::U822>,
    id::<t::U823>,
    id::<t::U824>,
    id::<t::U825>,
    id::<t::U826>,
    id::<t::U827>,
    id::<t::U828>,
    id::<t::U829>,
    id::<t::U830>,
    id::<t::U831>,
    id::<t::U832>,
    id::<t::U833>,
    id::<t::U834>,
    id::<t::U835>,
    id::<t::U836>,
    id::<t::U837>,
    id::<t::U838>,
    id::<t::U839>,
    id::<t::U840>,
    id::<t::U841>,
    id::<t::U842>,
    id::<t::U843>,
    id::<t::U844>,
    id::<t::U845>,
    id::<t::U846>,
    id::<t::U847>,
    id::<t::U848>,
    id::<t::U849>,
    id::<t::U850>,
    id::<t::U851>,
    id::<t::U852>,
    id::<t::U853>,
    id::<t::U854>,
    id::<t::U855>,
    id::<t::U856>,
    id::<t::U857>,
    id::<t::U858>,
    id::<t::U859>,
    id::<t::U860>,
    id::<t::U861>,
    id::<t::U862>,
    id::<t::U863>,
    id::<t::U864>,
    id::<t::U865>,
    id::<t::U866>,
    id::<t::U867>,
    id::<t::U868>,
    id::<t::U869>,
    id::<t::U870>,
    id::<t::U871>,
    id::<t::U872>,
    id::<t::U873>,
    id::<t::U874>,
    id::<t::U875>,
    id::<t::U876>,
    id::<t::U877>,
    id::<t::U878>,
    id::<t::U879>,
    id::<t::U880>,
    id::<t::U881>,
    id::<t::U882>,
    id::<t::U883>,
    id::<t::U884>,
    id::<t::U885>,
    id::<t::U886>,
    id::<t::U887>,
    id::<t::U888>,
    id::<t::U889>,
    id::<t::U890>,
    id::<t::U891>,
    id::<t::U892>,
    id::<t::U893>,
    id::<t::U894>,
    id::<t::U895>,
    id::<t::U896>,
    id::<t::U897>,
    id::<t::U898>,
    id::<t::U899>,
    id::<t::U900>,
    id::<t::U901>,
    id::<t::U902>,
    id::<t::U903>,
    id::<t::U904>,
    id::<t::U905>,
    id::<t::U906>,
    id::<t::U907>,
    id::<t::U908>,
    id::<t::U909>,
    id::<t::U910>,
    id::<t::U911>,
    id::<t::U912>,
    id::<t::U913>,
    id::<t::U914>,
    id::<t::U915>,
    id::<t::U916>,
    id::<t::U917>,
    id::<t::U918>,
    id::<t::U919>,
    id::<t::U920>,
    id::<t::U921>,
    id::<t::U922>,
    id::<t::U923>,
    id::<t::U924>,
    id::<t::U925>,
    id::<t::U926>,
    id::<t::U927>,
    id::<t::U928>,
    id::<t::U929>,
    id::<t::U930>,
    id::<t::U931>,
    id::<t::U932>,
    id::<t::U933>,
    id::<t::U934>,
    id::<t::U935>,
    id::<t::U936>,
    id::<t::U937>,
    id::<t::U938>,
    id::<t::U939>,
    id::<t::U940>,
    id::<t::U941>,
    id::<t::U942>,
    id::<t::U943>,
    id::<t::U944>,
    id::<t::U945>,
    id::<t::U946>,
    id::<t::U947>,
    id::<t::U948>,
    id::<t::U949>,
    id::<t::U950>,
    id::<t::U951>,
    id::<t::U952>,
    id::<t::U953>,
    id::<t::U954>,
    id::<t::U955>,
    id::<t::U956>,
    id::<t::U957>,
    id::<t::U958>,
    id::<t::U959>,
    id::<t::U960>,
    id::<t::U961>,
    id::<t::U962>,
    id::<t::U963>,
    id::<t::U964>,
    id::<t::U965>,
    id::<t::U966>,
    id::<t::U967>,
    id::<t::U968>,
    id::<t::U969>,
    id::<t::U970>,
    id::<t::U971>,
    id::<t::U972>,
    id::<t::U973>,
    id::<t::U974>,
    id::<t::U975>,
    id::<t::U976>,
    id::<t::U977>,
    id::<t::U978>,
    id::<t::U979>,
    id::<t::U980>,
    id::<t::U981>,
    id::<t::U982>,
    id::<t::U983>,
    id::<t::U984>,
    id::<t::U985>,
    id::<t::U986>,
    id::<t::U987>,
    id::<t::U988>,
    id::<t::U989>,
    id::<t::U990>,
    id::<t::U991>,
    id::<t::U992>,
    id::<t::U993>,
    id::<t::U994>,
    id::<t::U995>,
    id::<t::U996>,
    id::<t::U997>,
    id::<t::U998>,
    id::<t::U999>,
    id::<t::U1000>,
];
pub static TENS: &[fn() -> (u128, TypeId, TypeId)] = &[
    same::<t::U10pow0, UInt<UTerm, B1>>,
    same::<t::U10pow1, UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>>,
    same::<t::U10pow2, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B0>, B0>>,
    same::<t::U10pow3, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>>,
    same::<t::U10pow4, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow5, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow6, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow7, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow8, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow9, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow10, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow11, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow12, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow13, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow14, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow15, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow16, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow17, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow18, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow19, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow20, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow21, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow22, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow23, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow24, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow25, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow26, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow27, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow28, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow29, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow30, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow31, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow32, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow33, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow34, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow35, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow36, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow37, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U10pow38, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
];
pub static TWOS: &[fn() -> (u128, TypeId, TypeId)] = &[
    same::<t::U2pow0, UInt<UTerm, B1>>,
    same::<t::U2pow1, UInt<UInt<UTerm, B1>, B0>>,
    same::<t::U2pow2, UInt<UInt<UInt<UTerm, B1>, B0>, B0>>,
    same::<t::U2pow3, UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>>,
    same::<t::U2pow4, UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow5, UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow6, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow7, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow8, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow9, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow10, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow11, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow12, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow13, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow14, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow15, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow16, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow17, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow18, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow19, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow20, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow21, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow22, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow23, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow24, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow25, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow26, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow27, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow28, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow29, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow30, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow31, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow32, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow33, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow34, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow35, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow36, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow37, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow38, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow39, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow40, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow41, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow42, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow43, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow44, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow45, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow46, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow47, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow48, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow49, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow50, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow51, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow52, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow53, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow54, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow55, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow56, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow57, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow58, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow59, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow60, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow61, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow62, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow63, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow64, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow65, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow66, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow67, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow68, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow69, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow70, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow71, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow72, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow73, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow74, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow75, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow76, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow77, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow78, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow79, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow80, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow81, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow82, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow83, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow84, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow85, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow86, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow87, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow88, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow89, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow90, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow91, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow92, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow93, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow94, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow95, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow96, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow97, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow98, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow99, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow100, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow101, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow102, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow103, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow104, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow105, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow106, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow107, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow108, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow109, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow110, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow111, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow112, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow113, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow114, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow115, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow116, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow117, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow118, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow119, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow120, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow121, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow122, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow123, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow124, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow125, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow126, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
    same::<t::U2pow127, UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>>,
];
pub type L0 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>;
pub type L1 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>;
pub type L2 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>;
pub type L3 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>;
pub type L4 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>;
pub type L5 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>;
pub type L6 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>;
pub type L7 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>;
pub type L8 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>;
pub type L9 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L10 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>;
pub type L11 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>;
pub type L12 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L13 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>;
pub type L14 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>;
pub type L15 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>;
pub type L16 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>;
pub type L17 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>;
pub type L18 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>;
pub type L19 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L20 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>;
pub type L21 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>;
pub type L22 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L23 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>;
pub type L24 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>;
pub type L25 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>;
pub type L26 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>;
pub type L27 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>;
pub type L28 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>;
pub type L29 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>;
pub type L30 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>;
pub type L31 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>;
pub type L32 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>;
pub type L33 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>;
pub type L34 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>;
pub type L35 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>;
pub type L36 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>;
pub type L37 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>;
pub type L38 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>;
pub type L39 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>;
pub type L40 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>;
pub type L41 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>;
pub type L42 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>;
pub type L43 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>;
pub type L44 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>;
pub type L45 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>;
pub type L46 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>;
pub type L47 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>;
pub type L48 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>;
pub type L49 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L50 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>;
pub type L51 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>;
pub type L52 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>;
pub type L53 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>;
pub type L54 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B1>;
pub type L55 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>;
pub type L56 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>;
pub type L57 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>;
pub type L58 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>;
pub type L59 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>;
pub type L60 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>;
pub type L61 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>;
pub type L62 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>;
pub type L63 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>;
pub type L64 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>;
pub type L65 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>;
pub type L66 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L67 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>;
pub type L68 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>;
pub type L69 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>;
pub type L70 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B0>, B1>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B1>, B0>, B1>;
pub type L71 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L72 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B1>, B0>, B0>, B1>, B1>, B0>, B1>, B0>, B0>, B0>, B1>, B0>, B0>, B0>, B0>, B1>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>, B0>, B1>, B0>, B1>, B1>, B1>, B0>, B0>, B1>, B0>;
pub type L73 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B0>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>, B1>;
pub static PAIRS: &[fn() -> Pair] = &[
    pair::<t::U0, t::U0>,
    pair::<t::U0, t::U1>,
    pair::<t::U0, t::U2>,
    pair::<t::U0, t::U3>,
    pair::<t::U0, t::U4>,
    pair::<t::U0, t::U5>,
    pair::<t::U0, t::U6>,
    pair::<t::U0, t::U7>,
    pair::<t::U0, t::U8>,
    pair::<t::U0, t::U9>,
    pair::<t::U0, t::U10>,
    pair::<t::U0, t::U11>,
    pair::<t::U0, t::U12>,
    pair::<t::U0, t::U13>,
    pair::<t::U0, t::U14>,
    pair::<t::U0, t::U15>,
    pair::<t::U0, t::U16>,
    pair::<t::U0, t::U17>,
    pair::<t::U0, t::U18>,
    pair::<t::U0, t::U19>,
    pair::<t::U0, t::U20>,
    pair::<t::U0, t::U21>,
    pair::<t::U0, t::U22>,
    pair::<t::U0, t::U23>,
    pair::<t::U1, t::U0>,
    pair::<t::U1, t::U1>,
    pair::<t::U1, t::U2>,
    pair::<t::U1, t::U3>,
    pair::<t::U1, t::U4>,
    pair::<t::U1, t::U5>,
    pair::<t::U1, t::U6>,
    pair::<t::U1, t::U7>,
    pair::<t::U1, t::U8>,
    pair::<t::U1, t::U9>,
    pair::<t::U1, t::U10>,
    pair::<t::U1, t::U11>,
    pair::<t::U1, t::U12>,
    pair::<t::U1, t::U13>,
    pair::<t::U1, t::U14>,
    pair::<t::U1, t::U15>,
    pair::<t::U1, t::U16>,
    pair::<t::U1, t::U17>,
    pair::<t::U1, t::U18>,
    pair::<t::U1, t::U19>,
    pair::<t::U1, t::U20>,
    pair::<t::U1, t::U21>,
    pair::<t::U1, t::U22>,
    pair::<t::U1, t::U23>,
    pair::<t::U2, t::U0>,
    pair::<t::U2, t::U1>,
    pair::<t::U2, t::U2>,
    pair::<t::U2, t::U3>,
    pair::<t::U2, t::U4>,
    pair::<t::U2, t::U5>,
    pair::<t::U2, t::U6>,
    pair::<t::U2, t::U7>,
    pair::<t::U2, t::U8>,
    pair::<t::U2, t::U9>,
    pair::<t::U2, t::U10>,
    pair::<t::U2, t::U11>,
    pair::<t::U2, t::U12>,
    pair::<t::U2, t::U13>,
    pair::<t::U2, t::U14>,
    pair::<t::U2, t::U15>,
    pair::<t::U2, t::U16>,
    pair::<t::U2, t::U17>,
    pair::<t::U2, t::U18>,
    pair::<t::U2, t::U19>,
    pair::<t::U2, t::U20>,
    pair::<t::U2, t::U21>,
    pair::<t::U2, t::U22>,
    pair::<t::U2, t::U23>,
    pair::<t::U3, t::U0>,
    pair::<t::U3, t::U1>,
    pair::<t::U3, t::U2>,
    pair::<t::U3, t::U3>,
    pair::<t::U3, t::U4>,
    pair::<t::U3, t::U5>,
    pair::<t::U3, t::U6>,
    pair::<t::U3, t::U7>,
    pair::<t::U3, t::U8>,
    pair::<t::U3, t::U9>,
    pair::<t::U3, t::U10>,
    pair::<t::U3, t::U11>,
    pair::<t::U3, t::U12>,
    pair::<t::U3, t::U13>,
    pair::<t::U3, t::U14>,
    pair::<t::U3, t::U15>,
    pair::<t::U3, t::U16>,
    pair::<t::U3, t::U17>,
    pair::<t::U3, t::U18>,
    pair::<t::U3, t::U19>,
    pair::<t::U3, t::U20>,
    pair::<t::U3, t::U21>,
    pair::<t::U3, t::U22>,
    pair::<t::U3, t::U23>,
    pair::<t::U4, t::U0>,
    pair::<t::U4, t::U1>,
    pair::<t::U4, t::U2>,
    pair::<t::U4, t::U3>,
    pair::<t::U4, t::U4>,
    pair::<t::U4, t::U5>,
    pair::<t::U4, t::U6>,
    pair::<t::U4, t::U7>,
    pair::<t::U4, t::U8>,
    pair::<t::U4, t::U9>,
    pair::<t::U4, t::U10>,
    pair::<t::U4, t::U11>,
    pair::<t::U4, t::U12>,
    pair::<t::U4, t::U13>,
    pair::<t::U4, t::U14>,
    pair::<t::U4, t::U15>,
    pair::<t::U4, t::U16>,
    pair::<t::U4, t::U17>,
    pair::<t::U4, t::U18>,
    pair::<t::U4, t::U19>,
    pair::<t::U4, t::U20>,
    pair::<t::U4, t::U21>,
    pair::<t::U4, t::U22>,
    pair::<t::U4, t::U23>,
    pair::<t::U5, t::U0>,
    pair::<t::U5, t::U1>,
    pair::<t::U5, t::U2>,
    pair::<t::U5, t::U3>,
    pair::<t::U5, t::U4>,
    pair::<t::U5, t::U5>,
    pair::<t::U5, t::U6>,
    pair::<t::U5, t::U7>,
    pair::<t::U5, t::U8>,
    pair::<t::U5, t::U9>,
    pair::<t::U5, t::U10>,
    pair::<t::U5, t::U11>,
    pair::<t::U5, t::U12>,
    pair::<t::U5, t::U13>,
    pair::<t::U5, t::U14>,
    pair::<t::U5, t::U15>,
    pair::<t::U5, t::U16>,
    pair::<t::U5, t::U17>,
    pair::<t::U5, t::U18>,
    pair::<t::U5, t::U19>,
    pair::<t::U5, t::U20>,
    pair::<t::U5, t::U21>,
    pair::<t::U5, t::U22>,
    pair::<t::U5, t::U23>,
    pair::<t::U6, t::U0>,
    pair::<t::U6, t::U1>,
    pair::<t::U6, t::U2>,
    pair::<t::U6, t::U3>,
    pair::<t::U6, t::U4>,
    pair::<t::U6, t::U5>,
    pair::<t::U6, t::U6>,
    pair::<t::U6, t::U7>,
    pair::<t::U6, t::U8>,
    pair::<t::U6, t::U9>,
    pair::<t::U6, t::U10>,
    pair::<t::U6, t::U11>,
    pair::<t::U6, t::U12>,
    pair::<t::U6, t::U13>,
    pair::<t::U6, t::U14>,
    pair::<t::U6, t::U15>,
    pair::<t::U6, t::U16>,
    pair::<t::U6, t::U17>,
    pair::<t::U6, t::U18>,
    pair::<t::U6, t::U19>,
    pair::<t::U6, t::U20>,
    pair::<t::U6, t::U21>,
    pair::<t::U6, t::U22>,
    pair::<t::U6, t::U23>,
    pair::<t::U7, t::U0>,
    pair::<t::U7, t::U1>,
    pair::<t::U7, t::U2>,
    pair::<t::U7, t::U3>,
    pair::<t::U7, t::U4>,
    pair::<t::U7, t::U5>,
    pair::<t::U7, t::U6>,
    pair::<t::U7, t::U7>,
    pair::<t::U7, t::U8>,
    pair::<t::U7, t::U9>,
    pair::<t::U7, t::U10>,
    pair::<t::U7, t::U11>,
    pair::<t::U7, t::U12>,
    pair::<t::U7, t::U13>,
    pair::<t::U7, t::U14>,
    pair::<t::U7, t::U15>,
    pair::<t::U7, t::U16>,
    pair::<t::U7, t::U17>,
    pair::<t::U7, t::U18>,
    pair::<t::U7, t::U19>,
    pair::<t::U7, t::U20>,
    pair::<t::U7, t::U21>,
    pair::<t::U7, t::U22>,
    pair::<t::U7, t::U23>,
    pair::<t::U7, L0>,
    pair::<t::U8, t::U0>,
    pair::<t::U8, t::U1>,
    pair::<t::U8, t::U2>,
    pair::<t::U8, t::U3>,
    pair::<t::U8, t::U4>,
    pair::<t::U8, t::U5>,
    pair::<t::U8, t::U6>,
    pair::<t::U8, t::U7>,
    pair::<t::U8, t::U8>,
    pair::<t::U8, t::U9>,
    pair::<t::U8, t::U10>,
    pair::<t::U8, t::U11>,
    pair::<t::U8, t::U12>,
    pair::<t::U8, t::U13>,
    pair::<t::U8, t::U14>,
    pair::<t::U8, t::U15>,
    pair::<t::U8, t::U16>,
    pair::<t::U8, t::U17>,
    pair::<t::U8, t::U18>,
    pair::<t::U8, t::U19>,
    pair::<t::U8, t::U20>,
    pair::<t::U8, t::U21>,
    pair::<t::U8, t::U22>,
    pair::<t::U8, t::U23>,
    pair::<t::U8, t::U85>,
    pair::<t::U8, t::U359>,
    pair::<t::U9, t::U0>,
    pair::<t::U9, t::U1>,
    pair::<t::U9, t::U2>,
    pair::<t::U9, t::U3>,
    pair::<t::U9, t::U4>,
    pair::<t::U9, t::U5>,
    pair::<t::U9, t::U6>,
    pair::<t::U9, t::U7>,
    pair::<t::U9, t::U8>,
    pair::<t::U9, t::U9>,
    pair::<t::U9, t::U10>,
    pair::<t::U9, t::U11>,
    pair::<t::U9, t::U12>,
    pair::<t::U9, t::U13>,
    pair::<t::U9, t::U14>,
    pair::<t::U9, t::U15>,
    pair::<t::U9, t::U16>,
    pair::<t::U9, t::U17>,
    pair::<t::U9, t::U18>,
    pair::<t::U9, t::U19>,
    pair::<t::U9, t::U20>,
    pair::<t::U9, t::U21>,
    pair::<t::U9, t::U22>,
    pair::<t::U9, t::U23>,
    pair::<t::U10, t::U0>,
    pair::<t::U10, t::U1>,
    pair::<t::U10, t::U2>,
    pair::<t::U10, t::U3>,
    pair::<t::U10, t::U4>,
    pair::<t::U10, t::U5>,
    pair::<t::U10, t::U6>,
    pair::<t::U10, t::U7>,
    pair::<t::U10, t::U8>,
    pair::<t::U10, t::U9>,
    pair::<t::U10, t::U10>,
    pair::<t::U10, t::U11>,
    pair::<t::U10, t::U12>,
    pair::<t::U10, t::U13>,
    pair::<t::U10, t::U14>,
    pair::<t::U10, t::U15>,
    pair::<t::U10, t::U16>,
    pair::<t::U10, t::U17>,
    pair::<t::U10, t::U18>,
    pair::<t::U10, t::U19>,
    pair::<t::U10, t::U20>,
    pair::<t::U10, t::U21>,
    pair::<t::U10, t::U22>,
    pair::<t::U10, t::U23>,
    pair::<t::U11, t::U0>,
    pair::<t::U11, t::U1>,
    pair::<t::U11, t::U2>,
    pair::<t::U11, t::U3>,
    pair::<t::U11, t::U4>,
    pair::<t::U11, t::U5>,
    pair::<t::U11, t::U6>,
    pair::<t::U11, t::U7>,
    pair::<t::U11, t::U8>,
    pair::<t::U11, t::U9>,
    pair::<t::U11, t::U10>,
    pair::<t::U11, t::U11>,
    pair::<t::U11, t::U12>,
    pair::<t::U11, t::U13>,
    pair::<t::U11, t::U14>,
    pair::<t::U11, t::U15>,
    pair::<t::U11, t::U16>,
    pair::<t::U11, t::U17>,
    pair::<t::U11, t::U18>,
    pair::<t::U11, t::U19>,
    pair::<t::U11, t::U20>,
    pair::<t::U11, t::U21>,
    pair::<t::U11, t::U22>,
    pair::<t::U11, t::U23>,
    pair::<t::U12, t::U0>,
    pair::<t::U12, t::U1>,
    pair::<t::U12, t::U2>,
    pair::<t::U12, t::U3>,
    pair::<t::U12, t::U4>,
    pair::<t::U12, t::U5>,
    pair::<t::U12, t::U6>,
    pair::<t::U12, t::U7>,
    pair::<t::U12, t::U8>,
    pair::<t::U12, t::U9>,
    pair::<t::U12, t::U10>,
    pair::<t::U12, t::U11>,
    pair::<t::U12, t::U12>,
    pair::<t::U12, t::U13>,
    pair::<t::U12, t::U14>,
    pair::<t::U12, t::U15>,
    pair::<t::U12, t::U16>,
    pair::<t::U12, t::U17>,
    pair::<t::U12, t::U18>,
    pair::<t::U12, t::U19>,
    pair::<t::U12, t::U20>,
    pair::<t::U12, t::U21>,
    pair::<t::U12, t::U22>,
    pair::<t::U12, t::U23>,
    pair::<t::U12, t::U999>,
    pair::<t::U13, t::U0>,
    pair::<t::U13, t::U1>,
    pair::<t::U13, t::U2>,
    pair::<t::U13, t::U3>,
    pair::<t::U13, t::U4>,
    pair::<t::U13, t::U5>,
    pair::<t::U13, t::U6>,
    pair::<t::U13, t::U7>,
    pair::<t::U13, t::U8>,
    pair::<t::U13, t::U9>,
    pair::<t::U13, t::U10>,
    pair::<t::U13, t::U11>,
    pair::<t::U13, t::U12>,
    pair::<t::U13, t::U13>,
    pair::<t::U13, t::U14>,
    pair::<t::U13, t::U15>,
    pair::<t::U13, t::U16>,
    pair::<t::U13, t::U17>,
    pair::<t::U13, t::U18>,
    pair::<t::U13, t::U19>,
    pair::<t::U13, t::U20>,
    pair::<t::U13, t::U21>,
    pair::<t::U13, t::U22>,
    pair::<t::U13, t::U23>,
    pair::<t::U13, t::U994>,
    pair::<t::U14, t::U0>,
    pair::<t::U14, t::U1>,
    pair::<t::U14, t::U2>,
    pair::<t::U14, t::U3>,
    pair::<t::U14, t::U4>,
    pair::<t::U14, t::U5>,
    pair::<t::U14, t::U6>,
    pair::<t::U14, t::U7>,
    pair::<t::U14, t::U8>,
    pair::<t::U14, t::U9>,
    pair::<t::U14, t::U10>,
    pair::<t::U14, t::U11>,
    pair::<t::U14, t::U12>,
    pair::<t::U14, t::U13>,
    pair::<t::U14, t::U14>,
    pair::<t::U14, t::U15>,
    pair::<t::U14, t::U16>,
    pair::<t::U14, t::U17>,
    pair::<t::U14, t::U18>,
    pair::<t::U14, t::U19>,
    pair::<t::U14, t::U20>,
    pair::<t::U14, t::U21>,
    pair::<t::U14, t::U22>,
    pair::<t::U14, t::U23>,
    pair::<t::U14, t::U65>,
    pair::<t::U14, t::U86>,
    pair::<t::U15, t::U0>,
    pair::<t::U15, t::U1>,
    pair::<t::U15, t::U2>,
    pair::<t::U15, t::U3>,
    pair::<t::U15, t::U4>,
    pair::<t::U15, t::U5>,
    pair::<t::U15, t::U6>,
    pair::<t::U15, t::U7>,
    pair::<t::U15, t::U8>,
    pair::<t::U15, t::U9>,
    pair::<t::U15, t::U10>,
    pair::<t::U15, t::U11>,
    pair::<t::U15, t::U12>,
    pair::<t::U15, t::U13>,
    pair::<t::U15, t::U14>,
    pair::<t::U15, t::U15>,
    pair::<t::U15, t::U16>,
    pair::<t::U15, t::U17>,
    pair::<t::U15, t::U18>,
    pair::<t::U15, t::U19>,
    pair::<t::U15, t::U20>,
    pair::<t::U15, t::U21>,
    pair::<t::U15, t::U22>,
    pair::<t::U15, t::U23>,
    pair::<t::U15, t::U54>,
    pair::<t::U15, t::U960>,
    pair::<t::U16, t::U0>,
    pair::<t::U16, t::U1>,
    pair::<t::U16, t::U2>,
    pair::<t::U16, t::U3>,
    pair::<t::U16, t::U4>,
    pair::<t::U16, t::U5>,
    pair::<t::U16, t::U6>,
    pair::<t::U16, t::U7>,
    pair::<t::U16, t::U8>,
    pair::<t::U16, t::U9>,
    pair::<t::U16, t::U10>,
    pair::<t::U16, t::U11>,
    pair::<t::U16, t::U12>,
    pair::<t::U16, t::U13>,
    pair::<t::U16, t::U14>,
    pair::<t::U16, t::U15>,
    pair::<t::U16, t::U16>,
    pair::<t::U16, t::U17>,
    pair::<t::U16, t::U18>,
    pair::<t::U16, t::U19>,
    pair::<t::U16, t::U20>,
    pair::<t::U16, t::U21>,
    pair::<t::U16, t::U22>,
    pair::<t::U16, t::U23>,
    pair::<t::U17, t::U0>,
    pair::<t::U17, t::U1>,
    pair::<t::U17, t::U2>,
    pair::<t::U17, t::U3>,
    pair::<t::U17, t::U4>,
    pair::<t::U17, t::U5>,
    pair::<t::U17, t::U6>,
    pair::<t::U17, t::U7>,
    pair::<t::U17, t::U8>,
    pair::<t::U17, t::U9>,
    pair::<t::U17, t::U10>,
    pair::<t::U17, t::U11>,
    pair::<t::U17, t::U12>,
    pair::<t::U17, t::U13>,
    pair::<t::U17, t::U14>,
    pair::<t::U17, t::U15>,
    pair::<t::U17, t::U16>,
    pair::<t::U17, t::U17>,
    pair::<t::U17, t::U18>,
    pair::<t::U17, t::U19>,
    pair::<t::U17, t::U20>,
    pair::<t::U17, t::U21>,
    pair::<t::U17, t::U22>,
    pair::<t::U17, t::U23>,
    pair::<t::U18, t::U0>,
    pair::<t::U18, t::U1>,
    pair::<t::U18, t::U2>,
    pair::<t::U18, t::U3>,
    pair::<t::U18, t::U4>,
    pair::<t::U18, t::U5>,
    pair::<t::U18, t::U6>,
    pair::<t::U18, t::U7>,
    pair::<t::U18, t::U8>,
    pair::<t::U18, t::U9>,
    pair::<t::U18, t::U10>,
    pair::<t::U18, t::U11>,
    pair::<t::U18, t::U12>,
    pair::<t::U18, t::U13>,
    pair::<t::U18, t::U14>,
    pair::<t::U18, t::U15>,
    pair::<t::U18, t::U16>,
    pair::<t::U18, t::U17>,
    pair::<t::U18, t::U18>,
    pair::<t::U18, t::U19>,
    pair::<t::U18, t::U20>,
    pair::<t::U18, t::U21>,
    pair::<t::U18, t::U22>,
    pair::<t::U18, t::U23>,
    pair::<t::U19, t::U0>,
    pair::<t::U19, t::U1>,
    pair::<t::U19, t::U2>,
    pair::<t::U19, t::U3>,
    pair::<t::U19, t::U4>,
    pair::<t::U19, t::U5>,
    pair::<t::U19, t::U6>,
    pair::<t::U19, t::U7>,
    pair::<t::U19, t::U8>,
    pair::<t::U19, t::U9>,
    pair::<t::U19, t::U10>,
    pair::<t::U19, t::U11>,
    pair::<t::U19, t::U12>,
    pair::<t::U19, t::U13>,
    pair::<t::U19, t::U14>,
    pair::<t::U19, t::U15>,
    pair::<t::U19, t::U16>,
    pair::<t::U19, t::U17>,
    pair::<t::U19, t::U18>,
    pair::<t::U19, t::U19>,
    pair::<t::U19, t::U20>,
    pair::<t::U19, t::U21>,
    pair::<t::U19, t::U22>,
    pair::<t::U19, t::U23>,
    pair::<t::U20, t::U0>,
    pair::<t::U20, t::U1>,
    pair::<t::U20, t::U2>,
    pair::<t::U20, t::U3>,
    pair::<t::U20, t::U4>,
    pair::<t::U20, t::U5>,
    pair::<t::U20, t::U6>,
    pair::<t::U20, t::U7>,
    pair::<t::U20, t::U8>,
    pair::<t::U20, t::U9>,
    pair::<t::U20, t::U10>,
    pair::<t::U20, t::U11>,
    pair::<t::U20, t::U12>,
    pair::<t::U20, t::U13>,
    pair::<t::U20, t::U14>,
    pair::<t::U20, t::U15>,
    pair::<t::U20, t::U16>,
    pair::<t::U20, t::U17>,
    pair::<t::U20, t::U18>,
    pair::<t::U20, t::U19>,
    pair::<t::U20, t::U20>,
    pair::<t::U20, t::U21>,
    pair::<t::U20, t::U22>,
    pair::<t::U20, t::U23>,
    pair::<t::U21, t::U0>,
    pair::<t::U21, t::U1>,
    pair::<t::U21, t::U2>,
    pair::<t::U21, t::U3>,
    pair::<t::U21, t::U4>,
    pair::<t::U21, t::U5>,
    pair::<t::U21, t::U6>,
    pair::<t::U21, t::U7>,
    pair::<t::U21, t::U8>,
    pair::<t::U21, t::U9>,
    pair::<t::U21, t::U10>,
    pair::<t::U21, t::U11>,
    pair::<t::U21, t::U12>,
    pair::<t::U21, t::U13>,
    pair::<t::U21, t::U14>,
    pair::<t::U21, t::U15>,
    pair::<t::U21, t::U16>,
    pair::<t::U21, t::U17>,
    pair::<t::U21, t::U18>,
    pair::<t::U21, t::U19>,
    pair::<t::U21, t::U20>,
    pair::<t::U21, t::U21>,
    pair::<t::U21, t::U22>,
    pair::<t::U21, t::U23>,
    pair::<t::U22, t::U0>,
    pair::<t::U22, t::U1>,
    pair::<t::U22, t::U2>,
    pair::<t::U22, t::U3>,
    pair::<t::U22, t::U4>,
    pair::<t::U22, t::U5>,
    pair::<t::U22, t::U6>,
    pair::<t::U22, t::U7>,
    pair::<t::U22, t::U8>,
    pair::<t::U22, t::U9>,
    pair::<t::U22, t::U10>,
    pair::<t::U22, t::U11>,
    pair::<t::U22, t::U12>,
    pair::<t::U22, t::U13>,
    pair::<t::U22, t::U14>,
    pair::<t::U22, t::U15>,
    pair::<t::U22, t::U16>,
    pair::<t::U22, t::U17>,
    pair::<t::U22, t::U18>,
    pair::<t::U22, t::U19>,
    pair::<t::U22, t::U20>,
    pair::<t::U22, t::U21>,
    pair::<t::U22, t::U22>,
    pair::<t::U22, t::U23>,
    pair::<t::U23, t::U0>,
    pair::<t::U23, t::U1>,
    pair::<t::U23, t::U2>,
    pair::<t::U23, t::U3>,
    pair::<t::U23, t::U4>,
    pair::<t::U23, t::U5>,
    pair::<t::U23, t::U6>,
    pair::<t::U23, t::U7>,
    pair::<t::U23, t::U8>,
    pair::<t::U23, t::U9>,
    pair::<t::U23, t::U10>,
    pair::<t::U23, t::U11>,
    pair::<t::U23, t::U12>,
    pair::<t::U23, t::U13>,
    pair::<t::U23, t::U14>,
    pair::<t::U23, t::U15>,
    pair::<t::U23, t::U16>,
    pair::<t::U23, t::U17>,
    pair::<t::U23, t::U18>,
    pair::<t::U23, t::U19>,
    pair::<t::U23, t::U20>,
    pair::<t::U23, t::U21>,
    pair::<t::U23, t::U22>,
    pair::<t::U23, t::U23>,
    pair::<t::U23, t::U513>,
    pair::<t::U23, t::U1000>,
    pair::<t::U25, t::U2>,
    pair::<t::U25, t::U31>,
    pair::<t::U25, t::U33>,
    pair::<t::U25, t::U47>,
    pair::<t::U25, t::U63>,
    pair::<t::U25, t::U64>,
    pair::<t::U25, t::U170>,
    pair::<t::U25, t::U178>,
    pair::<t::U25, t::U187>,
    pair::<t::U25, t::U256>,
    pair::<t::U25, t::U452>,
    pair::<t::U25, t::U513>,
    pair::<t::U25, t::U683>,
    pair::<t::U25, t::U690>,
    pair::<t::U25, t::U889>,
    pair::<t::U31, t::U25>,
    pair::<t::U31, t::U31>,
    pair::<t::U31, t::U32>,
    pair::<t::U31, t::U33>,
    pair::<t::U31, t::U64>,
    pair::<t::U31, t::U65>,
    pair::<t::U31, t::U85>,
    pair::<t::U31, t::U96>,
    pair::<t::U31, t::U223>,
    pair::<t::U31, t::U254>,
    pair::<t::U31, t::U512>,
    pair::<t::U31, t::U513>,
    pair::<t::U31, t::U608>,
    pair::<t::U31, t::U683>,
    pair::<t::U31, t::U727>,
    pair::<t::U31, t::U848>,
    pair::<t::U31, t::U898>,
    pair::<t::U31, t::U1000>,
    pair::<t::U32, t::U25>,
    pair::<t::U32, t::U31>,
    pair::<t::U32, t::U32>,
    pair::<t::U32, t::U63>,
    pair::<t::U32, t::U64>,
    pair::<t::U32, t::U65>,
    pair::<t::U32, t::U128>,
    pair::<t::U32, t::U256>,
    pair::<t::U32, t::U470>,
    pair::<t::U32, t::U513>,
    pair::<t::U32, t::U539>,
    pair::<t::U32, t::U683>,
    pair::<t::U32, t::U1000>,
    pair::<t::U33, t::U6>,
    pair::<t::U33, t::U33>,
    pair::<t::U33, t::U47>,
    pair::<t::U33, t::U85>,
    pair::<t::U33, t::U127>,
    pair::<t::U33, t::U170>,
    pair::<t::U33, t::U224>,
    pair::<t::U33, t::U248>,
    pair::<t::U33, t::U254>,
    pair::<t::U33, t::U256>,
    pair::<t::U33, t::U267>,
    pair::<t::U33, t::U283>,
    pair::<t::U33, t::U346>,
    pair::<t::U33, t::U512>,
    pair::<t::U33, t::U513>,
    pair::<t::U33, t::U570>,
    pair::<t::U33, t::U683>,
    pair::<t::U33, t::U960>,
    pair::<t::U33, t::U972>,
    pair::<t::U33, t::U999>,
    pair::<t::U35, t::U988>,
    pair::<t::U47, t::U25>,
    pair::<t::U47, t::U31>,
    pair::<t::U47, t::U32>,
    pair::<t::U47, t::U47>,
    pair::<t::U47, t::U63>,
    pair::<t::U47, t::U64>,
    pair::<t::U47, t::U65>,
    pair::<t::U47, t::U127>,
    pair::<t::U47, t::U170>,
    pair::<t::U47, t::U247>,
    pair::<t::U47, t::U254>,
    pair::<t::U47, t::U402>,
    pair::<t::U47, t::U435>,
    pair::<t::U47, t::U480>,
    pair::<t::U47, t::U517>,
    pair::<t::U47, t::U604>,
    pair::<t::U47, t::U933>,
    pair::<t::U47, t::U947>,
    pair::<t::U47, t::U999>,
    pair::<t::U48, t::U433>,
    pair::<t::U53, t::U90>,
    pair::<t::U55, t::U496>,
    pair::<t::U56, t::U31>,
    pair::<t::U59, t::U256>,
    pair::<t::U61, t::U170>,
    pair::<t::U63, t::U0>,
    pair::<t::U63, t::U25>,
    pair::<t::U63, t::U33>,
    pair::<t::U63, t::U42>,
    pair::<t::U63, t::U47>,
    pair::<t::U63, t::U63>,
    pair::<t::U63, t::U64>,
    pair::<t::U63, t::U170>,
    pair::<t::U63, t::U256>,
    pair::<t::U63, t::U409>,
    pair::<t::U63, t::U511>,
    pair::<t::U63, t::U512>,
    pair::<t::U63, t::U589>,
    pair::<t::U63, t::U688>,
    pair::<t::U63, t::U710>,
    pair::<t::U63, t::U767>,
    pair::<t::U63, t::U960>,
    pair::<t::U63, t::U999>,
    pair::<t::U64, t::U13>,
    pair::<t::U64, t::U31>,
    pair::<t::U64, t::U32>,
    pair::<t::U64, t::U33>,
    pair::<t::U64, t::U63>,
    pair::<t::U64, t::U65>,
    pair::<t::U64, t::U170>,
    pair::<t::U64, t::U256>,
    pair::<t::U64, t::U683>,
    pair::<t::U64, t::U1000>,
    pair::<t::U65, t::U25>,
    pair::<t::U65, t::U31>,
    pair::<t::U65, t::U55>,
    pair::<t::U65, t::U85>,
    pair::<t::U65, t::U93>,
    pair::<t::U65, t::U127>,
    pair::<t::U65, t::U128>,
    pair::<t::U65, t::U158>,
    pair::<t::U65, t::U254>,
    pair::<t::U65, t::U255>,
    pair::<t::U65, t::U358>,
    pair::<t::U65, t::U406>,
    pair::<t::U65, t::U511>,
    pair::<t::U65, t::U512>,
    pair::<t::U65, t::U513>,
    pair::<t::U65, t::U606>,
    pair::<t::U65, t::U809>,
    pair::<t::U65, t::U974>,
    pair::<t::U65, t::U999>,
    pair::<t::U65, t::U1000>,
    pair::<t::U75, t::U86>,
    pair::<t::U78, t::U47>,
    pair::<t::U78, t::U167>,
    pair::<t::U80, t::U63>,
    pair::<t::U85, t::U3>,
    pair::<t::U85, t::U25>,
    pair::<t::U85, t::U32>,
    pair::<t::U85, t::U47>,
    pair::<t::U85, t::U63>,
    pair::<t::U85, t::U65>,
    pair::<t::U85, t::U85>,
    pair::<t::U85, t::U99>,
    pair::<t::U85, t::U170>,
    pair::<t::U85, t::U256>,
    pair::<t::U85, t::U257>,
    pair::<t::U85, t::U267>,
    pair::<t::U85, t::U327>,
    pair::<t::U85, t::U440>,
    pair::<t::U85, t::U478>,
    pair::<t::U85, t::U511>,
    pair::<t::U85, t::U512>,
    pair::<t::U85, t::U555>,
    pair::<t::U85, t::U683>,
    pair::<t::U85, t::U999>,
    pair::<t::U91, t::U233>,
    pair::<t::U92, t::U732>,
    pair::<t::U93, t::U949>,
    pair::<t::U93, t::U969>,
    pair::<t::U93, t::U999>,
    pair::<t::U96, t::U64>,
    pair::<t::U97, t::U211>,
    pair::<t::U97, t::U999>,
    pair::<t::U98, t::U143>,
    pair::<t::U100, t::U700>,
    pair::<t::U103, t::U187>,
    pair::<t::U104, t::U254>,
    pair::<t::U106, t::U159>,
    pair::<t::U108, t::U463>,
    pair::<t::U109, t::U85>,
    pair::<t::U109, t::U534>,
    pair::<t::U110, t::U32>,
    pair::<t::U111, t::U316>,
    pair::<t::U115, t::U927>,
    pair::<t::U116, t::U465>,
    pair::<t::U117, t::U25>,
    pair::<t::U119, t::U33>,
    pair::<t::U121, t::U31>,
    pair::<t::U125, L1>,
    pair::<t::U127, t::U25>,
    pair::<t::U127, t::U31>,
    pair::<t::U127, t::U32>,
    pair::<t::U127, t::U47>,
    pair::<t::U127, t::U64>,
    pair::<t::U127, t::U96>,
    pair::<t::U127, t::U170>,
    pair::<t::U127, t::U254>,
    pair::<t::U127, t::U256>,
    pair::<t::U127, t::U257>,
    pair::<t::U127, t::U316>,
    pair::<t::U127, t::U368>,
    pair::<t::U127, t::U454>,
    pair::<t::U127, t::U511>,
    pair::<t::U127, t::U513>,
    pair::<t::U127, t::U536>,
    pair::<t::U127, t::U693>,
    pair::<t::U127, t::U797>,
    pair::<t::U127, t::U806>,
    pair::<t::U127, t::U960>,
    pair::<t::U127, t::U996>,
    pair::<t::U128, t::U25>,
    pair::<t::U128, t::U47>,
    pair::<t::U128, t::U64>,
    pair::<t::U128, t::U65>,
    pair::<t::U128, t::U85>,
    pair::<t::U128, t::U101>,
    pair::<t::U128, t::U127>,
    pair::<t::U128, t::U128>,
    pair::<t::U128, t::U170>,
    pair::<t::U128, t::U254>,
    pair::<t::U128, t::U499>,
    pair::<t::U128, t::U512>,
    pair::<t::U128, t::U518>,
    pair::<t::U128, t::U960>,
    pair::<t::U128, t::U1000>,
    pair::<t::U129, t::U254>,
    pair::<t::U130, L2>,
    pair::<t::U131, t::U255>,
    pair::<t::U132, t::U511>,
    pair::<t::U136, t::U905>,
    pair::<t::U137, t::U970>,
    pair::<t::U140, t::U32>,
    pair::<t::U140, t::U40>,
    pair::<t::U141, t::U25>,
    pair::<t::U141, t::U109>,
    pair::<t::U142, t::U74>,
    pair::<t::U142, t::U543>,
    pair::<t::U144, t::U72>,
    pair::<t::U144, t::U255>,
    pair::<t::U145, t::U776>,
    pair::<t::U147, t::U53>,
    pair::<t::U147, t::U460>,
    pair::<t::U147, t::U1000>,
    pair::<t::U154, t::U811>,
    pair::<t::U155, t::U833>,
    pair::<t::U157, L3>,
    pair::<t::U160, t::U960>,
    pair::<t::U161, t::U669>,
    pair::<t::U162, t::U801>,
    pair::<t::U163, t::U733>,
    pair::<t::U164, t::U282>,
    pair::<t::U164, t::U374>,
    pair::<t::U165, t::U141>,
    pair::<t::U165, t::U257>,
    pair::<t::U166, t::U222>,
    pair::<t::U166, t::U939>,
    pair::<t::U168, L4>,
    pair::<t::U169, t::U16>,
    pair::<t::U169, L5>,
    pair::<t::U170, t::U31>,
    pair::<t::U170, t::U32>,
    pair::<t::U170, t::U63>,
    pair::<t::U170, t::U64>,
    pair::<t::U170, t::U65>,
    pair::<t::U170, t::U85>,
    pair::<t::U170, t::U128>,
    pair::<t::U170, t::U170>,
    pair::<t::U170, t::U254>,
    pair::<t::U170, t::U256>,
    pair::<t::U170, t::U257>,
    pair::<t::U170, t::U377>,
    pair::<t::U170, t::U408>,
    pair::<t::U170, t::U511>,
    pair::<t::U170, t::U513>,
    pair::<t::U170, t::U646>,
    pair::<t::U170, t::U782>,
    pair::<t::U178, t::U757>,
    pair::<t::U180, t::U513>,
    pair::<t::U196, t::U512>,
    pair::<t::U201, t::U3>,
    pair::<t::U201, t::U25>,
    pair::<t::U202, t::U513>,
    pair::<t::U207, t::U731>,
    pair::<t::U212, t::U524>,
    pair::<t::U214, t::U999>,
    pair::<t::U215, t::U127>,
    pair::<t::U215, L6>,
    pair::<t::U219, t::U647>,
    pair::<t::U221, t::U25>,
    pair::<t::U222, t::U952>,
    pair::<t::U224, t::U511>,
    pair::<t::U227, L7>,
    pair::<t::U228, L8>,
    pair::<t::U228, L9>,
    pair::<t::U236, t::U206>,
    pair::<t::U246, t::U207>,
    pair::<t::U250, t::U483>,
    pair::<t::U254, t::U25>,
    pair::<t::U254, t::U32>,
    pair::<t::U254, t::U63>,
    pair::<t::U254, t::U64>,
    pair::<t::U254, t::U65>,
    pair::<t::U254, t::U128>,
    pair::<t::U254, t::U255>,
    pair::<t::U254, t::U256>,
    pair::<t::U254, t::U257>,
    pair::<t::U254, t::U511>,
    pair::<t::U254, t::U512>,
    pair::<t::U254, t::U513>,
    pair::<t::U254, t::U729>,
    pair::<t::U254, t::U796>,
    pair::<t::U254, t::U960>,
    pair::<t::U254, t::U1000>,
    pair::<t::U254, L10>,
    pair::<t::U255, t::U31>,
    pair::<t::U255, t::U47>,
    pair::<t::U255, t::U63>,
    pair::<t::U255, t::U65>,
    pair::<t::U255, t::U128>,
    pair::<t::U255, t::U180>,
    pair::<t::U255, t::U255>,
    pair::<t::U255, t::U256>,
    pair::<t::U255, t::U511>,
    pair::<t::U255, t::U512>,
    pair::<t::U255, t::U657>,
    pair::<t::U255, t::U877>,
    pair::<t::U255, t::U960>,
    pair::<t::U255, t::U988>,
    pair::<t::U255, t::U999>,
    pair::<t::U256, t::U25>,
    pair::<t::U256, t::U32>,
    pair::<t::U256, t::U33>,
    pair::<t::U256, t::U47>,
    pair::<t::U256, t::U65>,
    pair::<t::U256, t::U85>,
    pair::<t::U256, t::U170>,
    pair::<t::U256, t::U254>,
    pair::<t::U256, t::U255>,
    pair::<t::U256, t::U257>,
    pair::<t::U256, t::U339>,
    pair::<t::U256, t::U494>,
    pair::<t::U256, t::U512>,
    pair::<t::U256, t::U683>,
    pair::<t::U256, t::U736>,
    pair::<t::U256, t::U960>,
    pair::<t::U256, t::U999>,
    pair::<t::U257, t::U25>,
    pair::<t::U257, t::U85>,
    pair::<t::U257, t::U127>,
    pair::<t::U257, t::U226>,
    pair::<t::U257, t::U254>,
    pair::<t::U257, t::U256>,
    pair::<t::U257, t::U511>,
    pair::<t::U257, t::U512>,
    pair::<t::U257, t::U536>,
    pair::<t::U257, t::U698>,
    pair::<t::U257, t::U703>,
    pair::<t::U257, t::U960>,
    pair::<t::U257, t::U974>,
    pair::<t::U257, t::U999>,
    pair::<t::U262, t::U47>,
    pair::<t::U270, t::U999>,
    pair::<t::U271, t::U257>,
    pair::<t::U271, t::U433>,
    pair::<t::U276, t::U64>,
    pair::<t::U284, t::U301>,
    pair::<t::U293, t::U246>,
    pair::<t::U295, t::U313>,
    pair::<t::U298, t::U922>,
    pair::<t::U307, t::U674>,
    pair::<t::U308, t::U63>,
    pair::<t::U308, t::U85>,
    pair::<t::U311, t::U118>,
    pair::<t::U311, t::U128>,
    pair::<t::U319, L11>,
    pair::<t::U321, t::U140>,
    pair::<t::U322, t::U561>,
    pair::<t::U324, t::U700>,
    pair::<t::U325, t::U25>,
    pair::<t::U325, t::U206>,
    pair::<t::U326, t::U47>,
    pair::<t::U327, t::U960>,
    pair::<t::U332, t::U924>,
    pair::<t::U333, L12>,
    pair::<t::U337, t::U605>,
    pair::<t::U340, t::U976>,
    pair::<t::U341, t::U63>,
    pair::<t::U341, t::U167>,
    pair::<t::U349, t::U25>,
    pair::<t::U356, t::U32>,
    pair::<t::U356, t::U174>,
    pair::<t::U370, t::U130>,
    pair::<t::U386, t::U474>,
    pair::<t::U387, t::U723>,
    pair::<t::U392, t::U63>,
    pair::<t::U393, t::U707>,
    pair::<t::U395, t::U962>,
    pair::<t::U400, t::U257>,
    pair::<t::U403, t::U187>,
    pair::<t::U412, t::U716>,
    pair::<t::U414, t::U32>,
    pair::<t::U414, t::U170>,
    pair::<t::U414, t::U256>,
    pair::<t::U419, t::U960>,
    pair::<t::U420, t::U297>,
    pair::<t::U420, t::U357>,
    pair::<t::U421, t::U960>,
    pair::<t::U430, t::U47>,
    pair::<t::U433, t::U566>,
    pair::<t::U434, t::U85>,
    pair::<t::U436, L13>,
    pair::<t::U437, t::U871>,
    pair::<t::U438, t::U47>,
    pair::<t::U442, t::U503>,
    pair::<t::U446, t::U565>,
    pair::<t::U451, t::U856>,
    pair::<t::U452, t::U224>,
    pair::<t::U453, t::U64>,
    pair::<t::U461, t::U157>,
    pair::<t::U462, t::U883>,
    pair::<t::U463, t::U980>,
    pair::<t::U468, t::U212>,
    pair::<t::U469, t::U65>,
    pair::<t::U471, L14>,
    pair::<t::U473, L15>,
    pair::<t::U474, L16>,
    pair::<t::U481, t::U513>,
    pair::<t::U483, t::U69>,
    pair::<t::U485, t::U511>,
    pair::<t::U487, t::U218>,
    pair::<t::U487, t::U854>,
    pair::<t::U487, L17>,
    pair::<t::U489, t::U731>,
    pair::<t::U493, t::U248>,
    pair::<t::U494, t::U320>,
    pair::<t::U495, L18>,
    pair::<t::U496, t::U65>,
    pair::<t::U496, t::U970>,
    pair::<t::U497, t::U26>,
    pair::<t::U501, t::U520>,
    pair::<t::U504, t::U511>,
    pair::<t::U505, t::U255>,
    pair::<t::U511, t::U25>,
    pair::<t::U511, t::U32>,
    pair::<t::U511, t::U33>,
    pair::<t::U511, t::U47>,
    pair::<t::U511, t::U85>,
    pair::<t::U511, t::U127>,
    pair::<t::U511, t::U254>,
    pair::<t::U511, t::U276>,
    pair::<t::U511, t::U322>,
    pair::<t::U511, t::U349>,
    pair::<t::U511, t::U485>,
    pair::<t::U511, t::U511>,
    pair::<t::U511, t::U512>,
    pair::<t::U511, t::U513>,
    pair::<t::U511, t::U534>,
    pair::<t::U511, t::U575>,
    pair::<t::U511, t::U675>,
    pair::<t::U511, t::U772>,
    pair::<t::U511, t::U819>,
    pair::<t::U512, t::U25>,
    pair::<t::U512, t::U31>,
    pair::<t::U512, t::U63>,
    pair::<t::U512, t::U65>,
    pair::<t::U512, t::U85>,
    pair::<t::U512, t::U254>,
    pair::<t::U512, t::U255>,
    pair::<t::U512, t::U439>,
    pair::<t::U512, t::U474>,
    pair::<t::U512, t::U592>,
    pair::<t::U512, t::U597>,
    pair::<t::U512, t::U683>,
    pair::<t::U512, t::U960>,
    pair::<t::U512, t::U1000>,
    pair::<t::U513, t::U31>,
    pair::<t::U513, t::U33>,
    pair::<t::U513, t::U47>,
    pair::<t::U513, t::U65>,
    pair::<t::U513, t::U127>,
    pair::<t::U513, t::U170>,
    pair::<t::U513, t::U254>,
    pair::<t::U513, t::U255>,
    pair::<t::U513, t::U256>,
    pair::<t::U513, t::U257>,
    pair::<t::U513, t::U276>,
    pair::<t::U513, t::U513>,
    pair::<t::U513, t::U683>,
    pair::<t::U513, t::U960>,
    pair::<t::U513, t::U999>,
    pair::<t::U513, t::U1000>,
    pair::<t::U515, t::U517>,
    pair::<t::U523, t::U387>,
    pair::<t::U526, t::U465>,
    pair::<t::U526, t::U999>,
    pair::<t::U529, t::U66>,
    pair::<t::U530, t::U43>,
    pair::<t::U532, t::U506>,
    pair::<t::U533, t::U754>,
    pair::<t::U539, t::U466>,
    pair::<t::U548, t::U71>,
    pair::<t::U548, t::U613>,
    pair::<t::U550, t::U842>,
    pair::<t::U550, t::U873>,
    pair::<t::U558, t::U324>,
    pair::<t::U562, t::U797>,
    pair::<t::U562, L19>,
    pair::<t::U563, t::U903>,
    pair::<t::U564, t::U64>,
    pair::<t::U566, t::U257>,
    pair::<t::U575, t::U325>,
    pair::<t::U580, L20>,
    pair::<t::U593, t::U33>,
    pair::<t::U594, t::U935>,
    pair::<t::U596, t::U521>,
    pair::<t::U603, t::U20>,
    pair::<t::U604, t::U683>,
    pair::<t::U607, t::U491>,
    pair::<t::U609, t::U939>,
    pair::<t::U617, t::U616>,
    pair::<t::U620, t::U907>,
    pair::<t::U621, t::U401>,
    pair::<t::U621, t::U791>,
    pair::<t::U628, t::U1000>,
    pair::<t::U629, t::U512>,
    pair::<t::U631, t::U83>,
    pair::<t::U635, t::U546>,
    pair::<t::U644, t::U907>,
    pair::<t::U654, t::U86>,
    pair::<t::U655, t::U490>,
    pair::<t::U658, t::U779>,
    pair::<t::U660, t::U127>,
    pair::<t::U662, t::U353>,
    pair::<t::U666, t::U85>,
    pair::<t::U676, t::U511>,
    pair::<t::U677, t::U403>,
    pair::<t::U677, t::U951>,
    pair::<t::U682, t::U85>,
    pair::<t::U683, t::U47>,
    pair::<t::U683, t::U64>,
    pair::<t::U683, t::U65>,
    pair::<t::U683, t::U85>,
    pair::<t::U683, t::U128>,
    pair::<t::U683, t::U156>,
    pair::<t::U683, t::U253>,
    pair::<t::U683, t::U256>,
    pair::<t::U683, t::U257>,
    pair::<t::U683, t::U279>,
    pair::<t::U683, t::U512>,
    pair::<t::U683, t::U525>,
    pair::<t::U683, t::U730>,
    pair::<t::U683, t::U999>,
    pair::<t::U683, t::U1000>,
    pair::<t::U684, t::U555>,
    pair::<t::U684, t::U650>,
    pair::<t::U684, t::U745>,
    pair::<t::U685, t::U512>,
    pair::<t::U685, t::U975>,
    pair::<t::U686, t::U128>,
    pair::<t::U686, t::U364>,
    pair::<t::U689, t::U971>,
    pair::<t::U689, L21>,
    pair::<t::U695, t::U33>,
    pair::<t::U695, t::U411>,
    pair::<t::U697, t::U158>,
    pair::<t::U700, t::U303>,
    pair::<t::U705, t::U64>,
    pair::<t::U705, t::U960>,
    pair::<t::U712, t::U468>,
    pair::<t::U733, t::U1000>,
    pair::<t::U734, t::U557>,
    pair::<t::U735, t::U32>,
    pair::<t::U738, t::U152>,
    pair::<t::U738, t::U911>,
    pair::<t::U746, t::U307>,
    pair::<t::U757, L22>,
    pair::<t::U757, L23>,
    pair::<t::U766, t::U47>,
    pair::<t::U768, L24>,
    pair::<t::U769, t::U276>,
    pair::<t::U771, t::U820>,
    pair::<t::U782, L25>,
    pair::<t::U786, t::U681>,
    pair::<t::U788, L26>,
    pair::<t::U789, t::U201>,
    pair::<t::U793, t::U614>,
    pair::<t::U796, t::U127>,
    pair::<t::U796, L27>,
    pair::<t::U799, t::U64>,
    pair::<t::U800, t::U231>,
    pair::<t::U800, t::U795>,
    pair::<t::U806, t::U64>,
    pair::<t::U806, t::U845>,
    pair::<t::U807, t::U781>,
    pair::<t::U809, t::U166>,
    pair::<t::U809, t::U960>,
    pair::<t::U810, t::U513>,
    pair::<t::U812, L28>,
    pair::<t::U819, t::U960>,
    pair::<t::U819, L29>,
    pair::<t::U820, t::U64>,
    pair::<t::U820, t::U256>,
    pair::<t::U820, t::U813>,
    pair::<t::U821, L30>,
    pair::<t::U824, t::U511>,
    pair::<t::U825, t::U915>,
    pair::<t::U826, t::U401>,
    pair::<t::U829, t::U65>,
    pair::<t::U830, t::U255>,
    pair::<t::U831, t::U438>,
    pair::<t::U832, t::U299>,
    pair::<t::U834, t::U63>,
    pair::<t::U836, t::U170>,
    pair::<t::U836, t::U345>,
    pair::<t::U844, L31>,
    pair::<t::U846, t::U119>,
    pair::<t::U853, t::U384>,
    pair::<t::U855, t::U203>,
    pair::<t::U856, t::U127>,
    pair::<t::U860, t::U570>,
    pair::<t::U866, t::U865>,
    pair::<t::U870, t::U211>,
    pair::<t::U880, t::U33>,
    pair::<t::U887, t::U511>,
    pair::<t::U887, t::U627>,
    pair::<t::U889, t::U417>,
    pair::<t::U891, t::U726>,
    pair::<t::U896, t::U244>,
    pair::<t::U897, t::U256>,
    pair::<t::U919, t::U683>,
    pair::<t::U919, L32>,
    pair::<t::U920, t::U339>,
    pair::<t::U926, t::U119>,
    pair::<t::U927, t::U321>,
    pair::<t::U928, t::U170>,
    pair::<t::U930, t::U942>,
    pair::<t::U930, L33>,
    pair::<t::U932, t::U462>,
    pair::<t::U935, t::U127>,
    pair::<t::U936, t::U887>,
    pair::<t::U940, t::U670>,
    pair::<t::U949, t::U511>,
    pair::<t::U950, t::U656>,
    pair::<t::U953, t::U33>,
    pair::<t::U954, t::U47>,
    pair::<t::U956, t::U757>,
    pair::<t::U957, t::U32>,
    pair::<t::U959, t::U581>,
    pair::<t::U960, t::U31>,
    pair::<t::U960, t::U32>,
    pair::<t::U960, t::U63>,
    pair::<t::U960, t::U85>,
    pair::<t::U960, t::U87>,
    pair::<t::U960, t::U127>,
    pair::<t::U960, t::U152>,
    pair::<t::U960, t::U254>,
    pair::<t::U960, t::U257>,
    pair::<t::U960, t::U326>,
    pair::<t::U960, t::U354>,
    pair::<t::U960, t::U511>,
    pair::<t::U960, t::U513>,
    pair::<t::U960, t::U522>,
    pair::<t::U960, t::U683>,
    pair::<t::U960, t::U817>,
    pair::<t::U960, t::U897>,
    pair::<t::U960, t::U960>,
    pair::<t::U960, t::U999>,
    pair::<t::U960, t::U1000>,
    pair::<t::U964, t::U184>,
    pair::<t::U966, t::U25>,
    pair::<t::U968, t::U512>,
    pair::<t::U973, t::U102>,
    pair::<t::U973, t::U842>,
    pair::<t::U974, t::U451>,
    pair::<t::U977, t::U973>,
    pair::<t::U978, t::U359>,
    pair::<t::U978, t::U960>,
    pair::<t::U981, L34>,
    pair::<t::U983, t::U965>,
    pair::<t::U984, t::U257>,
    pair::<t::U984, t::U444>,
    pair::<t::U985, t::U254>,
    pair::<t::U986, t::U960>,
    pair::<t::U988, t::U466>,
    pair::<t::U989, t::U993>,
    pair::<t::U990, t::U679>,
    pair::<t::U991, t::U64>,
    pair::<t::U991, t::U683>,
    pair::<t::U992, t::U505>,
    pair::<t::U992, t::U788>,
    pair::<t::U994, t::U256>,
    pair::<t::U996, t::U532>,
    pair::<t::U997, L35>,
    pair::<t::U999, t::U25>,
    pair::<t::U999, t::U31>,
    pair::<t::U999, t::U64>,
    pair::<t::U999, t::U65>,
    pair::<t::U999, t::U75>,
    pair::<t::U999, t::U85>,
    pair::<t::U999, t::U116>,
    pair::<t::U999, t::U254>,
    pair::<t::U999, t::U255>,
    pair::<t::U999, t::U256>,
    pair::<t::U999, t::U257>,
    pair::<t::U999, t::U592>,
    pair::<t::U999, t::U651>,
    pair::<t::U999, t::U658>,
    pair::<t::U999, t::U893>,
    pair::<t::U999, t::U960>,
    pair::<t::U1000, t::U32>,
    pair::<t::U1000, t::U33>,
    pair::<t::U1000, t::U47>,
    pair::<t::U1000, t::U63>,
    pair::<t::U1000, t::U127>,
    pair::<t::U1000, t::U128>,
    pair::<t::U1000, t::U170>,
    pair::<t::U1000, t::U256>,
    pair::<t::U1000, t::U328>,
    pair::<t::U1000, t::U417>,
    pair::<t::U1000, t::U462>,
    pair::<t::U1000, t::U511>,
    pair::<t::U1000, t::U512>,
    pair::<t::U1000, t::U629>,
    pair::<t::U1000, t::U683>,
    pair::<t::U1000, t::U960>,
    pair::<t::U1000, t::U999>,
    pair::<t::U1000, t::U1000>,
    pair::<t::U1000, L36>,
    pair::<L14, t::U804>,
    pair::<L14, L14>,
    pair::<L14, L37>,
    pair::<L14, L23>,
    pair::<L14, L11>,
    pair::<L4, t::U1>,
    pair::<L4, L38>,
    pair::<L4, L4>,
    pair::<L4, L12>,
    pair::<L10, t::U762>,
    pair::<L10, L10>,
    pair::<L10, L39>,
    pair::<L10, L33>,
    pair::<L33, t::U733>,
    pair::<L33, L14>,
    pair::<L33, L33>,
    pair::<L33, L40>,
    pair::<L33, L27>,
    pair::<L1, t::U286>,
    pair::<L1, L1>,
    pair::<L1, L41>,
    pair::<L1, L13>,
    pair::<L1, L36>,
    pair::<L17, t::U651>,
    pair::<L17, L17>,
    pair::<L17, L42>,
    pair::<L17, L6>,
    pair::<L17, L18>,
    pair::<L5, t::U652>,
    pair::<L5, L43>,
    pair::<L5, L5>,
    pair::<L5, L22>,
    pair::<L5, L11>,
    pair::<L19, t::U619>,
    pair::<L19, L19>,
    pair::<L19, L44>,
    pair::<L19, L8>,
    pair::<L19, L7>,
    pair::<L2, t::U828>,
    pair::<L2, L2>,
    pair::<L2, L45>,
    pair::<L2, L36>,
    pair::<L2, L30>,
    pair::<L13, t::U274>,
    pair::<L13, L1>,
    pair::<L13, L19>,
    pair::<L13, L13>,
    pair::<L13, L46>,
    pair::<L20, t::U589>,
    pair::<L20, L47>,
    pair::<L20, L20>,
    pair::<L20, L31>,
    pair::<L20, L0>,
    pair::<L6, t::U840>,
    pair::<L6, L14>,
    pair::<L6, L48>,
    pair::<L6, L6>,
    pair::<L6, L11>,
    pair::<L22, t::U271>,
    pair::<L22, L22>,
    pair::<L22, L49>,
    pair::<L22, L7>,
    pair::<L31, t::U73>,
    pair::<L31, L50>,
    pair::<L31, L31>,
    pair::<L31, L25>,
    pair::<L31, L9>,
    pair::<L23, t::U850>,
    pair::<L23, L5>,
    pair::<L23, L23>,
    pair::<L23, L51>,
    pair::<L29, t::U541>,
    pair::<L29, L13>,
    pair::<L29, L52>,
    pair::<L29, L29>,
    pair::<L29, L32>,
    pair::<L28, t::U358>,
    pair::<L28, L22>,
    pair::<L28, L31>,
    pair::<L28, L28>,
    pair::<L28, L53>,
    pair::<L8, t::U110>,
    pair::<L8, L6>,
    pair::<L8, L8>,
    pair::<L8, L54>,
    pair::<L8, L25>,
    pair::<L36, t::U17>,
    pair::<L36, L19>,
    pair::<L36, L13>,
    pair::<L36, L55>,
    pair::<L36, L36>,
    pair::<L16, t::U203>,
    pair::<L16, L20>,
    pair::<L16, L16>,
    pair::<L16, L56>,
    pair::<L16, L12>,
    pair::<L25, t::U801>,
    pair::<L25, L5>,
    pair::<L25, L6>,
    pair::<L25, L57>,
    pair::<L25, L25>,
    pair::<L3, t::U307>,
    pair::<L3, L2>,
    pair::<L3, L3>,
    pair::<L3, L58>,
    pair::<L3, L21>,
    pair::<L18, t::U993>,
    pair::<L18, L2>,
    pair::<L18, L36>,
    pair::<L18, L18>,
    pair::<L18, L59>,
    pair::<L30, t::U986>,
    pair::<L30, L30>,
    pair::<L30, L60>,
    pair::<L30, L32>,
    pair::<L30, L7>,
    pair::<L32, t::U161>,
    pair::<L32, L61>,
    pair::<L32, L32>,
    pair::<L32, L27>,
    pair::<L32, L9>,
    pair::<L7, t::U413>,
    pair::<L7, L25>,
    pair::<L7, L7>,
    pair::<L7, L62>,
    pair::<L7, L15>,
    pair::<L35, t::U707>,
    pair::<L35, L13>,
    pair::<L35, L16>,
    pair::<L35, L35>,
    pair::<L35, L63>,
    pair::<L15, t::U570>,
    pair::<L15, L28>,
    pair::<L15, L15>,
    pair::<L15, L64>,
    pair::<L15, L9>,
    pair::<L27, t::U410>,
    pair::<L27, L33>,
    pair::<L27, L17>,
    pair::<L27, L65>,
    pair::<L27, L27>,
    pair::<L12, t::U641>,
    pair::<L12, L31>,
    pair::<L12, L35>,
    pair::<L12, L12>,
    pair::<L12, L66>,
    pair::<L0, t::U74>,
    pair::<L0, L2>,
    pair::<L0, L67>,
    pair::<L0, L0>,
    pair::<L0, L26>,
    pair::<L24, t::U849>,
    pair::<L24, L14>,
    pair::<L24, L68>,
    pair::<L24, L24>,
    pair::<L34, t::U567>,
    pair::<L34, L6>,
    pair::<L34, L25>,
    pair::<L34, L69>,
    pair::<L34, L34>,
    pair::<L11, t::U230>,
    pair::<L11, L1>,
    pair::<L11, L16>,
    pair::<L11, L70>,
    pair::<L11, L11>,
    pair::<L9, t::U261>,
    pair::<L9, L16>,
    pair::<L9, L25>,
    pair::<L9, L9>,
    pair::<L9, L71>,
    pair::<L26, t::U592>,
    pair::<L26, L22>,
    pair::<L26, L9>,
    pair::<L26, L72>,
    pair::<L26, L26>,
    pair::<L21, t::U695>,
    pair::<L21, L19>,
    pair::<L21, L26>,
    pair::<L21, L73>,
    pair::<L21, L21>,
];
pub type L74 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L75 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L76 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L77 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L78 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L79 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L80 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L81 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L82 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L83 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub type L84 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>, B0>;
pub static POWERS: &[fn() -> Pow] = &[
    pow::<t::U0, t::U1, t::U512>,
    pow::<t::U0, t::U2, t::U128>,
    pow::<t::U0, t::U4, t::U1>,
    pow::<t::U0, t::U8, t::U16>,
    pow::<t::U0, t::U16, L74>,
    pow::<t::U0, t::U64, L75>,
    pow::<t::U1, t::U1, t::U16>,
    pow::<t::U1, t::U2, L76>,
    pow::<t::U1, t::U4, L77>,
    pow::<t::U1, t::U8, L78>,
    pow::<t::U1, t::U16, t::U4>,
    pow::<t::U1, t::U64, t::U64>,
    pow::<t::U2, t::U1, L79>,
    pow::<t::U2, t::U2, t::U512>,
    pow::<t::U2, t::U4, t::U64>,
    pow::<t::U2, t::U8, t::U512>,
    pow::<t::U2, t::U16, t::U64>,
    pow::<t::U2, t::U64, t::U64>,
    pow::<t::U3, t::U1, L80>,
    pow::<t::U3, t::U2, t::U4>,
    pow::<t::U3, t::U4, L76>,
    pow::<t::U3, t::U8, t::U32>,
    pow::<t::U3, t::U16, t::U64>,
    pow::<t::U3, t::U64, L78>,
    pow::<t::U4, t::U1, L76>,
    pow::<t::U4, t::U2, L79>,
    pow::<t::U4, t::U4, L80>,
    pow::<t::U4, t::U8, L80>,
    pow::<t::U4, t::U16, L81>,
    pow::<t::U4, t::U64, L82>,
    pow::<t::U5, t::U1, L19>,
    pow::<t::U5, t::U2, L82>,
    pow::<t::U5, t::U4, t::U128>,
    pow::<t::U5, t::U8, t::U512>,
    pow::<t::U5, t::U16, t::U4>,
    pow::<t::U5, t::U64, L74>,
    pow::<t::U6, t::U1, L19>,
    pow::<t::U6, t::U2, t::U128>,
    pow::<t::U6, t::U4, t::U512>,
    pow::<t::U6, t::U8, t::U64>,
    pow::<t::U6, t::U16, L79>,
    pow::<t::U6, t::U64, t::U64>,
    pow::<t::U7, t::U1, t::U4>,
    pow::<t::U7, t::U2, L83>,
    pow::<t::U7, t::U4, t::U4>,
    pow::<t::U7, t::U8, t::U128>,
    pow::<t::U7, t::U16, L77>,
    pow::<t::U7, t::U64, t::U128>,
    pow::<t::U8, t::U1, L78>,
    pow::<t::U8, t::U2, L74>,
    pow::<t::U8, t::U4, L82>,
    pow::<t::U8, t::U8, L83>,
    pow::<t::U8, t::U16, t::U64>,
    pow::<t::U8, t::U64, L75>,
    pow::<t::U9, t::U1, t::U16>,
    pow::<t::U9, t::U2, t::U256>,
    pow::<t::U9, t::U4, L74>,
    pow::<t::U9, t::U8, t::U64>,
    pow::<t::U9, t::U16, L76>,
    pow::<t::U9, t::U64, t::U4>,
    pow::<t::U10, t::U1, L83>,
    pow::<t::U10, t::U2, L83>,
    pow::<t::U10, t::U4, L78>,
    pow::<t::U10, t::U8, L77>,
    pow::<t::U10, t::U16, t::U2>,
    pow::<t::U10, t::U64, L74>,
    pow::<t::U11, t::U1, t::U256>,
    pow::<t::U11, t::U2, L83>,
    pow::<t::U11, t::U4, t::U256>,
    pow::<t::U11, t::U8, L84>,
    pow::<t::U11, t::U16, L81>,
    pow::<t::U11, t::U64, L81>,
    pow::<t::U12, t::U1, L19>,
    pow::<t::U12, t::U2, L76>,
    pow::<t::U12, t::U4, L19>,
    pow::<t::U12, t::U8, L74>,
    pow::<t::U12, t::U16, L19>,
    pow::<t::U12, t::U64, t::U8>,
    pow::<t::U13, t::U1, t::U128>,
    pow::<t::U13, t::U2, t::U4>,
    pow::<t::U13, t::U4, t::U4>,
    pow::<t::U13, t::U8, t::U4>,
    pow::<t::U13, t::U16, t::U16>,
    pow::<t::U13, t::U64, t::U64>,
    pow::<t::U14, t::U1, L83>,
    pow::<t::U14, t::U2, t::U32>,
    pow::<t::U14, t::U4, t::U256>,
    pow::<t::U14, t::U8, t::U1>,
    pow::<t::U14, t::U16, L75>,
    pow::<t::U14, t::U64, L76>,
    pow::<t::U15, t::U1, L81>,
    pow::<t::U15, t::U2, t::U8>,
    pow::<t::U15, t::U4, t::U16>,
    pow::<t::U15, t::U8, L82>,
    pow::<t::U15, t::U16, L84>,
    pow::<t::U15, t::U64, L81>,
    pow::<t::U16, t::U1, t::U32>,
    pow::<t::U16, t::U2, L81>,
    pow::<t::U16, t::U4, L76>,
    pow::<t::U16, t::U8, L84>,
    pow::<t::U16, t::U16, L81>,
    pow::<t::U16, t::U64, L77>,
    pow::<t::U17, t::U1, L76>,
    pow::<t::U17, t::U2, t::U512>,
    pow::<t::U17, t::U4, L82>,
    pow::<t::U17, t::U8, L19>,
    pow::<t::U17, t::U16, L84>,
    pow::<t::U17, t::U64, t::U32>,
    pow::<t::U18, t::U1, L74>,
    pow::<t::U18, t::U2, L76>,
    pow::<t::U18, t::U4, L84>,
    pow::<t::U18, t::U8, t::U4>,
    pow::<t::U18, t::U16, t::U2>,
    pow::<t::U18, t::U64, t::U1>,
    pow::<t::U19, t::U1, L74>,
    pow::<t::U19, t::U2, t::U8>,
    pow::<t::U19, t::U4, L19>,
    pow::<t::U19, t::U8, t::U1>,
    pow::<t::U19, t::U16, t::U512>,
    pow::<t::U19, t::U64, t::U128>,
    pow::<t::U20, t::U1, t::U32>,
    pow::<t::U20, t::U2, t::U8>,
    pow::<t::U20, t::U4, t::U1>,
    pow::<t::U20, t::U8, t::U1>,
    pow::<t::U20, t::U16, t::U256>,
    pow::<t::U20, t::U64, L75>,
    pow::<t::U21, t::U1, L76>,
    pow::<t::U21, t::U2, t::U32>,
    pow::<t::U21, t::U4, L83>,
    pow::<t::U21, t::U8, t::U2>,
    pow::<t::U21, t::U16, L80>,
    pow::<t::U21, t::U64, t::U64>,
    pow::<t::U22, t::U1, t::U16>,
    pow::<t::U22, t::U2, t::U2>,
    pow::<t::U22, t::U4, L78>,
    pow::<t::U22, t::U8, L75>,
    pow::<t::U22, t::U16, L74>,
    pow::<t::U22, t::U64, t::U64>,
    pow::<t::U23, t::U1, t::U2>,
    pow::<t::U23, t::U2, L75>,
    pow::<t::U23, t::U4, t::U4>,
    pow::<t::U23, t::U8, t::U64>,
    pow::<t::U23, t::U16, L79>,
    pow::<t::U23, t::U64, t::U2>,
    pow::<t::U24, t::U1, L79>,
    pow::<t::U24, t::U2, t::U1>,
    pow::<t::U24, t::U4, L77>,
    pow::<t::U24, t::U8, L74>,
    pow::<t::U24, t::U16, L82>,
    pow::<t::U24, t::U64, t::U256>,
    pow::<t::U25, t::U1, L84>,
    pow::<t::U25, t::U2, L84>,
    pow::<t::U25, t::U4, t::U16>,
    pow::<t::U25, t::U8, t::U8>,
    pow::<t::U25, t::U16, L19>,
    pow::<t::U25, t::U64, L78>,
    pow::<t::U25, L79, t::U4>,
    pow::<t::U25, L77, L76>,
    pow::<t::U25, L80, L74>,
    pow::<t::U26, t::U1, L19>,
    pow::<t::U26, t::U2, L76>,
    pow::<t::U26, t::U4, L77>,
    pow::<t::U26, t::U8, t::U1>,
    pow::<t::U26, t::U16, L76>,
    pow::<t::U26, t::U64, L84>,
    pow::<t::U27, t::U1, L76>,
    pow::<t::U27, t::U2, t::U2>,
    pow::<t::U27, t::U4, t::U8>,
    pow::<t::U27, t::U8, L82>,
    pow::<t::U27, t::U16, t::U512>,
    pow::<t::U27, t::U64, L81>,
    pow::<t::U28, t::U1, t::U32>,
    pow::<t::U28, t::U2, L19>,
    pow::<t::U28, t::U4, t::U32>,
    pow::<t::U28, t::U8, t::U1>,
    pow::<t::U28, t::U16, L78>,
    pow::<t::U28, t::U64, L77>,
    pow::<t::U29, t::U1, t::U8>,
    pow::<t::U29, t::U2, L80>,
    pow::<t::U29, t::U4, L19>,
    pow::<t::U29, t::U8, t::U1>,
    pow::<t::U29, t::U16, L19>,
    pow::<t::U29, t::U64, L79>,
    pow::<t::U30, t::U1, t::U16>,
    pow::<t::U30, t::U2, L74>,
    pow::<t::U30, t::U4, L74>,
    pow::<t::U30, t::U8, t::U32>,
    pow::<t::U30, t::U16, t::U128>,
    pow::<t::U30, t::U64, L76>,
    pow::<t::U31, t::U1, L74>,
    pow::<t::U31, t::U2, L80>,
    pow::<t::U31, t::U4, L78>,
    pow::<t::U31, t::U8, L82>,
    pow::<t::U31, t::U16, t::U128>,
    pow::<t::U31, t::U64, L77>,
    pow::<t::U31, L78, L81>,
    pow::<t::U31, L80, L82>,
    pow::<t::U32, t::U1, t::U8>,
    pow::<t::U32, t::U2, t::U4>,
    pow::<t::U32, t::U4, t::U512>,
    pow::<t::U32, t::U8, L79>,
    pow::<t::U32, t::U16, L81>,
    pow::<t::U32, t::U64, L79>,
    pow::<t::U32, t::U256, t::U4>,
    pow::<t::U32, t::U512, t::U1>,
    pow::<t::U32, L76, t::U8>,
    pow::<t::U33, t::U1, t::U32>,
    pow::<t::U33, t::U2, L74>,
    pow::<t::U33, t::U4, L81>,
    pow::<t::U33, t::U8, L78>,
    pow::<t::U33, t::U16, L76>,
    pow::<t::U33, t::U64, t::U32>,
    pow::<t::U33, t::U128, L84>,
    pow::<t::U33, t::U256, L78>,
    pow::<t::U33, L84, t::U128>,
    pow::<t::U33, L81, t::U512>,
    pow::<t::U34, t::U1, L76>,
    pow::<t::U34, t::U2, t::U1>,
    pow::<t::U34, t::U4, L80>,
    pow::<t::U34, t::U8, t::U4>,
    pow::<t::U34, t::U16, L80>,
    pow::<t::U34, t::U64, L19>,
    pow::<t::U35, t::U1, L76>,
    pow::<t::U35, t::U2, L75>,
    pow::<t::U35, t::U4, L78>,
    pow::<t::U35, t::U8, L84>,
    pow::<t::U35, t::U16, L83>,
    pow::<t::U35, t::U64, L79>,
    pow::<t::U36, t::U1, t::U1>,
    pow::<t::U36, t::U2, t::U512>,
    pow::<t::U36, t::U4, t::U64>,
    pow::<t::U36, t::U8, L19>,
    pow::<t::U36, t::U16, L84>,
    pow::<t::U36, t::U64, L76>,
    pow::<t::U37, t::U1, t::U4>,
    pow::<t::U37, t::U2, t::U128>,
    pow::<t::U37, t::U4, t::U256>,
    pow::<t::U37, t::U8, L78>,
    pow::<t::U37, t::U16, t::U256>,
    pow::<t::U37, t::U64, L80>,
    pow::<t::U38, t::U1, t::U128>,
    pow::<t::U38, t::U2, L80>,
    pow::<t::U38, t::U4, L79>,
    pow::<t::U38, t::U8, t::U1>,
    pow::<t::U38, t::U16, t::U256>,
    pow::<t::U38, t::U64, L76>,
    pow::<t::U39, t::U1, L83>,
    pow::<t::U39, t::U2, t::U16>,
    pow::<t::U39, t::U4, L83>,
    pow::<t::U39, t::U8, t::U16>,
    pow::<t::U39, t::U16, L74>,
    pow::<t::U39, t::U64, t::U1>,
    pow::<t::U47, t::U1, L83>,
    pow::<t::U47, t::U2, L76>,
    pow::<t::U47, t::U4, L74>,
    pow::<t::U47, t::U8, t::U4>,
    pow::<t::U47, t::U16, t::U1>,
    pow::<t::U47, t::U64, L74>,
    pow::<t::U63, t::U1, L76>,
    pow::<t::U63, t::U2, L81>,
    pow::<t::U63, t::U4, t::U16>,
    pow::<t::U63, t::U8, L75>,
    pow::<t::U63, t::U16, L76>,
    pow::<t::U63, t::U32, L76>,
    pow::<t::U63, t::U64, t::U512>,
    pow::<t::U63, L84, t::U64>,
    pow::<t::U64, t::U1, L77>,
    pow::<t::U64, t::U2, L79>,
    pow::<t::U64, t::U4, L80>,
    pow::<t::U64, t::U8, L81>,
    pow::<t::U64, t::U16, L84>,
    pow::<t::U64, t::U64, t::U2>,
    pow::<t::U64, t::U256, t::U256>,
    pow::<t::U64, L76, t::U512>,
    pow::<t::U64, L81, L82>,
    pow::<t::U64, L19, t::U512>,
    pow::<t::U65, t::U1, L74>,
    pow::<t::U65, t::U2, t::U1>,
    pow::<t::U65, t::U4, t::U256>,
    pow::<t::U65, t::U8, L77>,
    pow::<t::U65, t::U16, L83>,
    pow::<t::U65, t::U64, t::U2>,
    pow::<t::U65, L78, L79>,
    pow::<t::U65, L83, t::U256>,
    pow::<t::U65, L77, L79>,
    pow::<t::U85, t::U1, t::U512>,
    pow::<t::U85, t::U2, t::U64>,
    pow::<t::U85, t::U4, L78>,
    pow::<t::U85, t::U8, t::U32>,
    pow::<t::U85, t::U16, L79>,
    pow::<t::U85, t::U64, L84>,
    pow::<t::U85, L81, t::U2>,
    pow::<t::U85, L80, L82>,
    pow::<t::U127, t::U1, L78>,
    pow::<t::U127, t::U2, t::U64>,
    pow::<t::U127, t::U4, L77>,
    pow::<t::U127, t::U8, L84>,
    pow::<t::U127, t::U16, t::U256>,
    pow::<t::U127, t::U64, t::U512>,
    pow::<t::U127, L77, L78>,
    pow::<t::U127, L80, t::U16>,
    pow::<t::U127, L74, L79>,
    pow::<t::U128, t::U1, L83>,
    pow::<t::U128, t::U2, t::U512>,
    pow::<t::U128, t::U4, L77>,
    pow::<t::U128, t::U8, t::U64>,
    pow::<t::U128, t::U16, L80>,
    pow::<t::U128, t::U64, L83>,
    pow::<t::U128, L80, L75>,
    pow::<t::U128, L74, t::U16>,
    pow::<t::U170, t::U1, L82>,
    pow::<t::U170, t::U2, L82>,
    pow::<t::U170, t::U4, L74>,
    pow::<t::U170, t::U8, L82>,
    pow::<t::U170, t::U16, t::U4>,
    pow::<t::U170, t::U64, L79>,
    pow::<t::U254, t::U1, t::U256>,
    pow::<t::U254, t::U2, t::U128>,
    pow::<t::U254, t::U4, L75>,
    pow::<t::U254, t::U8, t::U32>,
    pow::<t::U254, t::U16, t::U8>,
    pow::<t::U254, t::U64, t::U8>,
    pow::<t::U254, L80, L80>,
    pow::<t::U255, t::U1, L78>,
    pow::<t::U255, t::U2, L75>,
    pow::<t::U255, t::U4, t::U2>,
    pow::<t::U255, t::U8, L79>,
    pow::<t::U255, t::U16, L80>,
    pow::<t::U255, t::U64, L76>,
    pow::<t::U255, t::U128, t::U8>,
    pow::<t::U255, t::U512, t::U64>,
    pow::<t::U255, L77, t::U2>,
    pow::<t::U256, t::U1, t::U4>,
    pow::<t::U256, t::U2, L83>,
    pow::<t::U256, t::U4, t::U64>,
    pow::<t::U256, t::U8, t::U16>,
    pow::<t::U256, t::U16, L77>,
    pow::<t::U256, t::U64, L82>,
    pow::<t::U256, t::U128, t::U256>,
    pow::<t::U256, L78, t::U256>,
    pow::<t::U256, L75, L76>,
    pow::<t::U257, t::U1, L80>,
    pow::<t::U257, t::U2, L19>,
    pow::<t::U257, t::U4, L84>,
    pow::<t::U257, t::U8, t::U4>,
    pow::<t::U257, t::U16, t::U128>,
    pow::<t::U257, t::U64, L74>,
    pow::<t::U257, L76, t::U8>,
    pow::<t::U257, L19, L81>,
    pow::<t::U511, t::U1, L80>,
    pow::<t::U511, t::U2, L81>,
    pow::<t::U511, t::U4, t::U2>,
    pow::<t::U511, t::U8, L79>,
    pow::<t::U511, t::U16, L76>,
    pow::<t::U511, t::U64, L81>,
    pow::<t::U511, L81, L75>,
    pow::<t::U512, t::U1, L76>,
    pow::<t::U512, t::U2, L74>,
    pow::<t::U512, t::U4, L81>,
    pow::<t::U512, t::U8, L74>,
    pow::<t::U512, t::U16, L75>,
    pow::<t::U512, t::U64, L75>,
    pow::<t::U512, L80, t::U16>,
    pow::<t::U512, L75, t::U256>,
    pow::<t::U513, t::U1, t::U32>,
    pow::<t::U513, t::U2, L81>,
    pow::<t::U513, t::U4, t::U1>,
    pow::<t::U513, t::U8, t::U4>,
    pow::<t::U513, t::U16, t::U4>,
    pow::<t::U513, t::U64, L79>,
    pow::<t::U513, L79, t::U1>,
    pow::<t::U683, t::U1, t::U64>,
    pow::<t::U683, t::U2, L84>,
    pow::<t::U683, t::U4, L19>,
    pow::<t::U683, t::U8, t::U1>,
    pow::<t::U683, t::U16, t::U64>,
    pow::<t::U683, t::U32, t::U64>,
    pow::<t::U683, t::U64, t::U64>,
    pow::<t::U683, t::U128, t::U128>,
    pow::<t::U683, L77, t::U64>,
    pow::<t::U960, t::U1, t::U8>,
    pow::<t::U960, t::U2, t::U4>,
    pow::<t::U960, t::U4, L78>,
    pow::<t::U960, t::U8, L83>,
    pow::<t::U960, t::U16, L75>,
    pow::<t::U960, t::U64, t::U256>,
    pow::<t::U960, t::U256, L78>,
    pow::<t::U960, t::U512, t::U128>,
    pow::<t::U960, L79, t::U32>,
    pow::<t::U960, L82, t::U128>,
    pow::<t::U960, L80, t::U16>,
    pow::<t::U999, t::U1, L84>,
    pow::<t::U999, t::U2, t::U1>,
    pow::<t::U999, t::U4, L80>,
    pow::<t::U999, t::U8, L83>,
    pow::<t::U999, t::U16, t::U2>,
    pow::<t::U999, t::U64, t::U256>,
    pow::<t::U999, t::U128, L19>,
    pow::<t::U999, L79, t::U32>,
    pow::<t::U999, L84, t::U16>,
    pow::<t::U999, L83, L76>,
    pow::<t::U999, L74, L84>,
    pow::<t::U1000, t::U1, L82>,
    pow::<t::U1000, t::U2, L75>,
    pow::<t::U1000, t::U4, L78>,
    pow::<t::U1000, t::U8, L83>,
    pow::<t::U1000, t::U16, t::U128>,
    pow::<t::U1000, t::U32, t::U2>,
    pow::<t::U1000, t::U64, L84>,
    pow::<t::U1000, L84, L76>,
    pow::<t::U1000, L82, t::U1>,
    pow::<t::U1000, L77, L80>,
    pow::<L14, L84, t::U1>,
    pow::<L4, t::U8, t::U64>,
    pow::<L4, L84, L81>,
    pow::<L4, L83, L74>,
    pow::<L4, L81, L74>,
    pow::<L10, t::U4, L76>,
    pow::<L10, L78, L75>,
    pow::<L10, L76, L75>,
    pow::<L10, L82, t::U16>,
    pow::<L10, L80, t::U32>,
    pow::<L33, t::U2, L75>,
    pow::<L33, t::U16, t::U2>,
    pow::<L33, L77, t::U2>,
    pow::<L1, L78, L81>,
    pow::<L1, L81, L19>,
    pow::<L17, t::U32, L74>,
    pow::<L17, t::U512, t::U2>,
    pow::<L17, L76, t::U32>,
    pow::<L17, L81, L84>,
    pow::<L17, L19, t::U4>,
    pow::<L17, L77, L83>,
    pow::<L17, L75, L78>,
    pow::<L5, t::U2, t::U8>,
    pow::<L5, L19, t::U64>,
    pow::<L5, L77, t::U1>,
    pow::<L5, L75, t::U8>,
    pow::<L19, t::U32, L83>,
    pow::<L19, t::U128, L75>,
    pow::<L19, t::U512, L81>,
    pow::<L19, L79, L83>,
    pow::<L19, L74, t::U128>,
    pow::<L2, L78, L74>,
    pow::<L2, L77, L81>,
    pow::<L2, L80, L77>,
    pow::<L13, t::U256, L82>,
    pow::<L13, L83, L76>,
    pow::<L13, L77, L74>,
    pow::<L20, t::U8, t::U2>,
    pow::<L20, t::U32, t::U128>,
    pow::<L20, t::U128, L76>,
    pow::<L20, L77, t::U32>,
    pow::<L6, t::U4, L81>,
    pow::<L6, t::U16, t::U512>,
    pow::<L6, t::U32, t::U4>,
    pow::<L6, L78, L76>,
    pow::<L6, L79, L81>,
    pow::<L6, L75, L78>,
    pow::<L6, L74, L77>,
    pow::<L31, t::U2, t::U8>,
    pow::<L31, t::U64, L81>,
    pow::<L31, t::U512, t::U1>,
    pow::<L31, L74, L81>,
    pow::<L23, t::U8, L76>,
    pow::<L23, t::U32, L82>,
    pow::<L23, t::U256, t::U8>,
    pow::<L23, L78, t::U4>,
    pow::<L23, L84, L83>,
    pow::<L23, L83, L83>,
    pow::<L29, t::U128, L77>,
    pow::<L29, L84, L75>,
    pow::<L29, L81, t::U64>,
    pow::<L8, t::U1, L78>,
    pow::<L8, L83, L77>,
    pow::<L8, L19, L81>,
    pow::<L36, t::U128, t::U2>,
    pow::<L36, t::U512, L79>,
    pow::<L36, L78, L80>,
    pow::<L36, L79, L83>,
    pow::<L36, L19, t::U2>,
    pow::<L36, L77, t::U1>,
    pow::<L36, L75, t::U32>,
    pow::<L16, t::U256, L76>,
    pow::<L16, L78, L77>,
    pow::<L25, t::U1, t::U16>,
    pow::<L3, t::U32, t::U1>,
    pow::<L3, t::U256, L79>,
    pow::<L3, L19, t::U8>,
    pow::<L3, L75, t::U16>,
    pow::<L18, t::U8, t::U8>,
    pow::<L18, L19, L75>,
    pow::<L18, L80, L76>,
    pow::<L30, t::U2, L77>,
    pow::<L30, t::U8, t::U256>,
    pow::<L30, t::U32, L75>,
    pow::<L30, t::U64, L82>,
    pow::<L30, L78, t::U512>,
    pow::<L30, L76, L78>,
    pow::<L30, L19, t::U2>,
    pow::<L32, t::U1, L81>,
    pow::<L32, t::U8, L76>,
    pow::<L32, L78, t::U64>,
    pow::<L7, t::U4, t::U4>,
    pow::<L7, L79, L77>,
    pow::<L7, L80, t::U128>,
    pow::<L35, t::U4, L75>,
    pow::<L35, t::U32, t::U4>,
    pow::<L35, t::U64, L77>,
    pow::<L35, t::U128, t::U2>,
    pow::<L15, t::U16, t::U8>,
    pow::<L15, t::U64, t::U4>,
    pow::<L15, t::U512, t::U1>,
    pow::<L15, L79, t::U512>,
    pow::<L15, L75, t::U4>,
    pow::<L27, t::U1, t::U2>,
    pow::<L27, t::U2, L81>,
    pow::<L12, t::U4, L78>,
    pow::<L12, L77, t::U128>,
    pow::<L0, t::U64, t::U8>,
    pow::<L0, L78, t::U2>,
    pow::<L0, L84, t::U1>,
    pow::<L0, L83, t::U16>,
    pow::<L0, L81, t::U1>,
    pow::<L24, t::U128, L82>,
    pow::<L24, L78, L75>,
    pow::<L24, L84, t::U4>,
    pow::<L24, L77, L83>,
    pow::<L34, t::U4, t::U32>,
    pow::<L34, L76, L75>,
    pow::<L34, L75, t::U4>,
    pow::<L11, t::U4, L82>,
    pow::<L11, t::U32, L80>,
    pow::<L11, t::U256, L19>,
    pow::<L11, L78, L74>,
    pow::<L11, L79, L81>,
    pow::<L11, L19, t::U256>,
    pow::<L9, t::U512, L74>,
    pow::<L9, L80, t::U128>,
    pow::<L26, t::U1, t::U512>,
    pow::<L26, t::U8, L82>,
    pow::<L26, t::U16, L75>,
    pow::<L26, t::U64, t::U32>,
];
pub static MULS: &[fn() -> Mul] = &[
    mul::<t::U0, t::U0>,
    mul::<t::U0, t::U1>,
    mul::<t::U0, t::U2>,
    mul::<t::U0, t::U3>,
    mul::<t::U0, t::U4>,
    mul::<t::U0, t::U5>,
    mul::<t::U0, t::U6>,
    mul::<t::U0, t::U7>,
    mul::<t::U0, t::U8>,
    mul::<t::U0, t::U9>,
    mul::<t::U0, t::U10>,
    mul::<t::U0, t::U11>,
    mul::<t::U0, t::U12>,
    mul::<t::U0, t::U13>,
    mul::<t::U0, t::U14>,
    mul::<t::U0, t::U15>,
    mul::<t::U0, t::U16>,
    mul::<t::U1, t::U0>,
    mul::<t::U1, t::U1>,
    mul::<t::U1, t::U2>,
    mul::<t::U1, t::U3>,
    mul::<t::U1, t::U4>,
    mul::<t::U1, t::U5>,
    mul::<t::U1, t::U6>,
    mul::<t::U1, t::U7>,
    mul::<t::U1, t::U8>,
    mul::<t::U1, t::U9>,
    mul::<t::U1, t::U10>,
    mul::<t::U1, t::U11>,
    mul::<t::U1, t::U12>,
    mul::<t::U1, t::U13>,
    mul::<t::U1, t::U14>,
    mul::<t::U1, t::U15>,
    mul::<t::U1, t::U16>,
    mul::<t::U2, t::U0>,
    mul::<t::U2, t::U1>,
    mul::<t::U2, t::U2>,
    mul::<t::U2, t::U3>,
    mul::<t::U2, t::U4>,
    mul::<t::U2, t::U5>,
    mul::<t::U2, t::U6>,
    mul::<t::U2, t::U7>,
    mul::<t::U2, t::U8>,
    mul::<t::U2, t::U9>,
    mul::<t::U2, t::U10>,
    mul::<t::U2, t::U11>,
    mul::<t::U2, t::U12>,
    mul::<t::U2, t::U13>,
    mul::<t::U2, t::U14>,
    mul::<t::U2, t::U15>,
    mul::<t::U2, t::U16>,
    mul::<t::U3, t::U0>,
    mul::<t::U3, t::U1>,
    mul::<t::U3, t::U2>,
    mul::<t::U3, t::U3>,
    mul::<t::U3, t::U4>,
    mul::<t::U3, t::U5>,
    mul::<t::U3, t::U6>,
    mul::<t::U3, t::U7>,
    mul::<t::U3, t::U8>,
    mul::<t::U3, t::U9>,
    mul::<t::U3, t::U10>,
    mul::<t::U3, t::U11>,
    mul::<t::U3, t::U12>,
    mul::<t::U3, t::U13>,
    mul::<t::U3, t::U14>,
    mul::<t::U3, t::U15>,
    mul::<t::U3, t::U16>,
    mul::<t::U4, t::U0>,
    mul::<t::U4, t::U1>,
    mul::<t::U4, t::U2>,
    mul::<t::U4, t::U3>,
    mul::<t::U4, t::U4>,
    mul::<t::U4, t::U5>,
    mul::<t::U4, t::U6>,
    mul::<t::U4, t::U7>,
    mul::<t::U4, t::U8>,
    mul::<t::U4, t::U9>,
    mul::<t::U4, t::U10>,
    mul::<t::U4, t::U11>,
    mul::<t::U4, t::U12>,
    mul::<t::U4, t::U13>,
    mul::<t::U4, t::U14>,
    mul::<t::U4, t::U15>,
    mul::<t::U4, t::U16>,
    mul::<t::U5, t::U0>,
    mul::<t::U5, t::U1>,
    mul::<t::U5, t::U2>,
    mul::<t::U5, t::U3>,
    mul::<t::U5, t::U4>,
    mul::<t::U5, t::U5>,
    mul::<t::U5, t::U6>,
    mul::<t::U5, t::U7>,
    mul::<t::U5, t::U8>,
    mul::<t::U5, t::U9>,
    mul::<t::U5, t::U10>,
    mul::<t::U5, t::U11>,
    mul::<t::U5, t::U12>,
    mul::<t::U5, t::U13>,
    mul::<t::U5, t::U14>,
    mul::<t::U5, t::U15>,
    mul::<t::U5, t::U16>,
    mul::<t::U6, t::U0>,
    mul::<t::U6, t::U1>,
    mul::<t::U6, t::U2>,
    mul::<t::U6, t::U3>,
    mul::<t::U6, t::U4>,
    mul::<t::U6, t::U5>,
    mul::<t::U6, t::U6>,
    mul::<t::U6, t::U7>,
    mul::<t::U6, t::U8>,
    mul::<t::U6, t::U9>,
    mul::<t::U6, t::U10>,
    mul::<t::U6, t::U11>,
    mul::<t::U6, t::U12>,
    mul::<t::U6, t::U13>,
    mul::<t::U6, t::U14>,
    mul::<t::U6, t::U15>,
    mul::<t::U6, t::U16>,
    mul::<t::U7, t::U0>,
    mul::<t::U7, t::U1>,
    mul::<t::U7, t::U2>,
    mul::<t::U7, t::U3>,
    mul::<t::U7, t::U4>,
    mul::<t::U7, t::U5>,
    mul::<t::U7, t::U6>,
    mul::<t::U7, t::U7>,
    mul::<t::U7, t::U8>,
    mul::<t::U7, t::U9>,
    mul::<t::U7, t::U10>,
    mul::<t::U7, t::U11>,
    mul::<t::U7, t::U12>,
    mul::<t::U7, t::U13>,
    mul::<t::U7, t::U14>,
    mul::<t::U7, t::U15>,
    mul::<t::U7, t::U16>,
    mul::<t::U8, t::U0>,
    mul::<t::U8, t::U1>,
    mul::<t::U8, t::U2>,
    mul::<t::U8, t::U3>,
    mul::<t::U8, t::U4>,
    mul::<t::U8, t::U5>,
    mul::<t::U8, t::U6>,
    mul::<t::U8, t::U7>,
    mul::<t::U8, t::U8>,
    mul::<t::U8, t::U9>,
    mul::<t::U8, t::U10>,
    mul::<t::U8, t::U11>,
    mul::<t::U8, t::U12>,
    mul::<t::U8, t::U13>,
    mul::<t::U8, t::U14>,
    mul::<t::U8, t::U15>,
    mul::<t::U8, t::U16>,
    mul::<t::U9, t::U0>,
    mul::<t::U9, t::U1>,
    mul::<t::U9, t::U2>,
    mul::<t::U9, t::U3>,
    mul::<t::U9, t::U4>,
    mul::<t::U9, t::U5>,
    mul::<t::U9, t::U6>,
    mul::<t::U9, t::U7>,
    mul::<t::U9, t::U8>,
    mul::<t::U9, t::U9>,
    mul::<t::U9, t::U10>,
    mul::<t::U9, t::U11>,
    mul::<t::U9, t::U12>,
    mul::<t::U9, t::U13>,
    mul::<t::U9, t::U14>,
    mul::<t::U9, t::U15>,
    mul::<t::U9, t::U16>,
    mul::<t::U10, t::U0>,
    mul::<t::U10, t::U1>,
    mul::<t::U10, t::U2>,
    mul::<t::U10, t::U3>,
    mul::<t::U10, t::U4>,
    mul::<t::U10, t::U5>,
    mul::<t::U10, t::U6>,
    mul::<t::U10, t::U7>,
    mul::<t::U10, t::U8>,
    mul::<t::U10, t::U9>,
    mul::<t::U10, t::U10>,
    mul::<t::U10, t::U11>,
    mul::<t::U10, t::U12>,
    mul::<t::U10, t::U13>,
    mul::<t::U10, t::U14>,
    mul::<t::U10, t::U15>,
    mul::<t::U10, t::U16>,
    mul::<t::U11, t::U0>,
    mul::<t::U11, t::U1>,
    mul::<t::U11, t::U2>,
    mul::<t::U11, t::U3>,
    mul::<t::U11, t::U4>,
    mul::<t::U11, t::U5>,
    mul::<t::U11, t::U6>,
    mul::<t::U11, t::U7>,
    mul::<t::U11, t::U8>,
    mul::<t::U11, t::U9>,
    mul::<t::U11, t::U10>,
    mul::<t::U11, t::U11>,
    mul::<t::U11, t::U12>,
    mul::<t::U11, t::U13>,
    mul::<t::U11, t::U14>,
    mul::<t::U11, t::U15>,
    mul::<t::U11, t::U16>,
    mul::<t::U12, t::U0>,
    mul::<t::U12, t::U1>,
    mul::<t::U12, t::U2>,
    mul::<t::U12, t::U3>,
    mul::<t::U12, t::U4>,
    mul::<t::U12, t::U5>,
    mul::<t::U12, t::U6>,
    mul::<t::U12, t::U7>,
    mul::<t::U12, t::U8>,
    mul::<t::U12, t::U9>,
    mul::<t::U12, t::U10>,
    mul::<t::U12, t::U11>,
    mul::<t::U12, t::U12>,
    mul::<t::U12, t::U13>,
    mul::<t::U12, t::U14>,
    mul::<t::U12, t::U15>,
    mul::<t::U12, t::U16>,
    mul::<t::U13, t::U0>,
    mul::<t::U13, t::U1>,
    mul::<t::U13, t::U2>,
    mul::<t::U13, t::U3>,
    mul::<t::U13, t::U4>,
    mul::<t::U13, t::U5>,
    mul::<t::U13, t::U6>,
    mul::<t::U13, t::U7>,
    mul::<t::U13, t::U8>,
    mul::<t::U13, t::U9>,
    mul::<t::U13, t::U10>,
    mul::<t::U13, t::U11>,
    mul::<t::U13, t::U12>,
    mul::<t::U13, t::U13>,
    mul::<t::U13, t::U14>,
    mul::<t::U13, t::U15>,
    mul::<t::U13, t::U16>,
    mul::<t::U14, t::U0>,
    mul::<t::U14, t::U1>,
    mul::<t::U14, t::U2>,
    mul::<t::U14, t::U3>,
    mul::<t::U14, t::U4>,
    mul::<t::U14, t::U5>,
    mul::<t::U14, t::U6>,
    mul::<t::U14, t::U7>,
    mul::<t::U14, t::U8>,
    mul::<t::U14, t::U9>,
    mul::<t::U14, t::U10>,
    mul::<t::U14, t::U11>,
    mul::<t::U14, t::U12>,
    mul::<t::U14, t::U13>,
    mul::<t::U14, t::U14>,
    mul::<t::U14, t::U15>,
    mul::<t::U14, t::U16>,
    mul::<t::U15, t::U0>,
    mul::<t::U15, t::U1>,
    mul::<t::U15, t::U2>,
    mul::<t::U15, t::U3>,
    mul::<t::U15, t::U4>,
    mul::<t::U15, t::U5>,
    mul::<t::U15, t::U6>,
    mul::<t::U15, t::U7>,
    mul::<t::U15, t::U8>,
    mul::<t::U15, t::U9>,
    mul::<t::U15, t::U10>,
    mul::<t::U15, t::U11>,
    mul::<t::U15, t::U12>,
    mul::<t::U15, t::U13>,
    mul::<t::U15, t::U14>,
    mul::<t::U15, t::U15>,
    mul::<t::U15, t::U16>,
    mul::<t::U16, t::U0>,
    mul::<t::U16, t::U1>,
    mul::<t::U16, t::U2>,
    mul::<t::U16, t::U3>,
    mul::<t::U16, t::U4>,
    mul::<t::U16, t::U5>,
    mul::<t::U16, t::U6>,
    mul::<t::U16, t::U7>,
    mul::<t::U16, t::U8>,
    mul::<t::U16, t::U9>,
    mul::<t::U16, t::U10>,
    mul::<t::U16, t::U11>,
    mul::<t::U16, t::U12>,
    mul::<t::U16, t::U13>,
    mul::<t::U16, t::U14>,
    mul::<t::U16, t::U15>,
    mul::<t::U16, t::U16>,
    mul::<t::U17, t::U218>,
    mul::<t::U18, t::U797>,
    mul::<t::U30, t::U930>,
    mul::<t::U32, t::U976>,
    mul::<t::U33, t::U20>,
    mul::<t::U39, t::U758>,
    mul::<t::U43, t::U699>,
    mul::<t::U50, t::U812>,
    mul::<t::U79, t::U1>,
    mul::<t::U86, t::U309>,
    mul::<t::U102, t::U769>,
    mul::<t::U114, t::U103>,
    mul::<t::U117, t::U739>,
    mul::<t::U121, t::U396>,
    mul::<t::U123, t::U503>,
    mul::<t::U125, t::U975>,
    mul::<t::U133, t::U878>,
    mul::<t::U135, t::U741>,
    mul::<t::U145, t::U721>,
    mul::<t::U147, t::U467>,
    mul::<t::U153, t::U710>,
    mul::<t::U159, t::U173>,
    mul::<t::U161, t::U793>,
    mul::<t::U163, t::U603>,
    mul::<t::U166, t::U183>,
    mul::<t::U168, t::U687>,
    mul::<t::U172, t::U753>,
    mul::<t::U191, t::U163>,
    mul::<t::U191, t::U519>,
    mul::<t::U196, t::U30>,
    mul::<t::U196, t::U721>,
    mul::<t::U212, t::U196>,
    mul::<t::U220, t::U315>,
    mul::<t::U221, t::U592>,
    mul::<t::U231, t::U595>,
    mul::<t::U233, t::U973>,
    mul::<t::U239, t::U355>,
    mul::<t::U246, t::U522>,
    mul::<t::U276, t::U32>,
    mul::<t::U280, t::U304>,
    mul::<t::U309, t::U177>,
    mul::<t::U317, t::U279>,
    mul::<t::U324, t::U1>,
    mul::<t::U325, t::U879>,
    mul::<t::U326, t::U68>,
    mul::<t::U327, t::U430>,
    mul::<t::U330, t::U268>,
    mul::<t::U347, t::U709>,
    mul::<t::U385, t::U290>,
    mul::<t::U385, t::U896>,
    mul::<t::U386, t::U425>,
    mul::<t::U390, t::U224>,
    mul::<t::U391, t::U376>,
    mul::<t::U397, t::U996>,
    mul::<t::U410, t::U993>,
    mul::<t::U416, t::U217>,
    mul::<t::U419, t::U882>,
    mul::<t::U433, t::U958>,
    mul::<t::U434, t::U78>,
    mul::<t::U450, t::U455>,
    mul::<t::U460, t::U830>,
    mul::<t::U485, t::U557>,
    mul::<t::U495, t::U2>,
    mul::<t::U506, t::U724>,
    mul::<t::U511, t::U96>,
    mul::<t::U518, t::U707>,
    mul::<t::U524, t::U290>,
    mul::<t::U524, t::U530>,
    mul::<t::U525, t::U414>,
    mul::<t::U537, t::U602>,
    mul::<t::U540, t::U788>,
    mul::<t::U565, t::U178>,
    mul::<t::U581, t::U186>,
    mul::<t::U598, t::U158>,
    mul::<t::U606, t::U256>,
    mul::<t::U607, t::U642>,
    mul::<t::U610, t::U358>,
    mul::<t::U638, t::U899>,
    mul::<t::U641, t::U106>,
    mul::<t::U677, t::U943>,
    mul::<t::U680, t::U36>,
    mul::<t::U682, t::U499>,
    mul::<t::U685, t::U610>,
    mul::<t::U690, t::U390>,
    mul::<t::U693, t::U457>,
    mul::<t::U703, t::U545>,
    mul::<t::U705, t::U998>,
    mul::<t::U718, t::U80>,
    mul::<t::U742, t::U127>,
    mul::<t::U745, t::U531>,
    mul::<t::U752, t::U636>,
    mul::<t::U754, t::U907>,
    mul::<t::U757, t::U54>,
    mul::<t::U759, t::U993>,
    mul::<t::U769, t::U699>,
    mul::<t::U771, t::U588>,
    mul::<t::U783, t::U219>,
    mul::<t::U788, t::U248>,
    mul::<t::U788, t::U448>,
    mul::<t::U818, t::U908>,
    mul::<t::U833, t::U891>,
    mul::<t::U834, t::U198>,
    mul::<t::U836, t::U545>,
    mul::<t::U841, t::U79>,
    mul::<t::U860, t::U951>,
    mul::<t::U890, t::U951>,
    mul::<t::U894, t::U241>,
    mul::<t::U895, t::U35>,
    mul::<t::U898, t::U389>,
    mul::<t::U902, t::U900>,
    mul::<t::U916, t::U701>,
    mul::<t::U917, t::U11>,
    mul::<t::U924, t::U461>,
    mul::<t::U927, t::U413>,
    mul::<t::U933, t::U130>,
    mul::<t::U946, t::U420>,
    mul::<t::U947, t::U140>,
    mul::<t::U987, t::U609>,
    mul::<t::U999, t::U116>,
    mul::<t::U999, t::U746>,
    mul::<L14, t::U264>,
    mul::<L1, t::U497>,
    mul::<L17, t::U829>,
    mul::<L5, t::U177>,
    mul::<L19, t::U830>,
    mul::<L20, t::U229>,
    mul::<L6, t::U800>,
    mul::<L22, t::U452>,
    mul::<L29, t::U687>,
    mul::<L29, t::U871>,
    mul::<L28, t::U482>,
    mul::<L8, t::U54>,
    mul::<L16, t::U188>,
    mul::<L27, t::U105>,
    mul::<L12, t::U339>,
    mul::<L24, t::U89>,
];
pub static ONES: &[fn() -> One] = &[
    one::<t::U0>,
    one::<t::U1>,
    one::<t::U2>,
    one::<t::U3>,
    one::<t::U4>,
    one::<t::U5>,
    one::<t::U6>,
    one::<t::U7>,
    one::<t::U8>,
    one::<t::U9>,
    one::<t::U10>,
    one::<t::U11>,
    one::<t::U12>,
    one::<t::U13>,
    one::<t::U14>,
    one::<t::U15>,
    one::<t::U16>,
    one::<t::U17>,
    one::<t::U18>,
    one::<t::U19>,
    one::<t::U20>,
    one::<t::U21>,
    one::<t::U22>,
    one::<t::U23>,
    one::<t::U24>,
    one::<t::U25>,
    one::<t::U26>,
    one::<t::U27>,
    one::<t::U28>,
    one::<t::U29>,
    one::<t::U30>,
    one::<t::U31>,
    one::<t::U32>,
    one::<t::U33>,
    one::<t::U34>,
    one::<t::U35>,
    one::<t::U36>,
    one::<t::U37>,
    one::<t::U38>,
    one::<t::U39>,
    one::<t::U40>,
    one::<t::U41>,
    one::<t::U42>,
    one::<t::U43>,
    one::<t::U44>,
    one::<t::U45>,
    one::<t::U46>,
    one::<t::U47>,
    one::<t::U48>,
    one::<t::U49>,
    one::<t::U50>,
    one::<t::U51>,
    one::<t::U52>,
    one::<t::U53>,
    one::<t::U54>,
    one::<t::U55>,
    one::<t::U56>,
    one::<t::U57>,
    one::<t::U58>,
    one::<t::U59>,
    one::<t::U60>,
    one::<t::U61>,
    one::<t::U62>,
    one::<t::U63>,
    one::<t::U64>,
    one::<t::U65>,
    one::<t::U66>,
    one::<t::U67>,
    one::<t::U68>,
    one::<t::U69>,
    one::<t::U70>,
    one::<t::U71>,
    one::<t::U72>,
    one::<t::U73>,
    one::<t::U74>,
    one::<t::U75>,
    one::<t::U76>,
    one::<t::U77>,
    one::<t::U78>,
    one::<t::U79>,
    one::<t::U80>,
    one::<t::U81>,
    one::<t::U82>,
    one::<t::U83>,
    one::<t::U84>,
    one::<t::U85>,
    one::<t::U86>,
    one::<t::U87>,
    one::<t::U88>,
    one::<t::U89>,
    one::<t::U90>,
    one::<t::U91>,
    one::<t::U92>,
    one::<t::U93>,
    one::<t::U94>,
    one::<t::U95>,
    one::<t::U96>,
    one::<t::U97>,
    one::<t::U98>,
    one::<t::U99>,
    one::<t::U100>,
    one::<t::U101>,
    one::<t::U102>,
    one::<t::U103>,
    one::<t::U104>,
    one::<t::U105>,
    one::<t::U106>,
    one::<t::U107>,
    one::<t::U108>,
    one::<t::U109>,
    one::<t::U110>,
    one::<t::U111>,
    one::<t::U112>,
    one::<t::U113>,
    one::<t::U114>,
    one::<t::U115>,
    one::<t::U116>,
    one::<t::U117>,
    one::<t::U118>,
    one::<t::U119>,
    one::<t::U120>,
    one::<t::U121>,
    one::<t::U122>,
    one::<t::U123>,
    one::<t::U124>,
    one::<t::U125>,
    one::<t::U126>,
    one::<t::U127>,
    one::<t::U128>,
    one::<t::U129>,
    one::<t::U170>,
    one::<t::U254>,
    one::<t::U255>,
    one::<t::U256>,
    one::<t::U257>,
    one::<t::U511>,
    one::<t::U512>,
    one::<t::U513>,
    one::<t::U683>,
    one::<t::U960>,
    one::<t::U999>,
    one::<t::U1000>,
    one::<L14>,
    one::<L4>,
    one::<L10>,
    one::<L33>,
    one::<L1>,
    one::<L17>,
    one::<L5>,
    one::<L19>,
    one::<L2>,
    one::<L13>,
    one::<L20>,
    one::<L6>,
    one::<L22>,
    one::<L31>,
    one::<L23>,
    one::<L29>,
    one::<L28>,
    one::<L8>,
    one::<L36>,
    one::<L16>,
    one::<L25>,
    one::<L3>,
    one::<L18>,
    one::<L30>,
    one::<L32>,
    one::<L7>,
    one::<L35>,
    one::<L15>,
    one::<L27>,
    one::<L12>,
    one::<L0>,
    one::<L24>,
    one::<L34>,
    one::<L11>,
    one::<L9>,
    one::<L26>,
    one::<L21>,
];
pub static NONZERO: &[fn() -> NZ] = &[
    nz::<t::U1>,
    nz::<t::U2>,
    nz::<t::U3>,
    nz::<t::U4>,
    nz::<t::U5>,
    nz::<t::U6>,
    nz::<t::U7>,
    nz::<t::U8>,
    nz::<t::U9>,
    nz::<t::U10>,
    nz::<t::U11>,
    nz::<t::U12>,
    nz::<t::U13>,
    nz::<t::U14>,
    nz::<t::U15>,
    nz::<t::U16>,
    nz::<t::U17>,
    nz::<t::U18>,
    nz::<t::U19>,
    nz::<t::U20>,
    nz::<t::U21>,
    nz::<t::U22>,
    nz::<t::U23>,
    nz::<t::U24>,
    nz::<t::U25>,
    nz::<t::U26>,
    nz::<t::U27>,
    nz::<t::U28>,
    nz::<t::U29>,
    nz::<t::U30>,
    nz::<t::U31>,
    nz::<t::U32>,
    nz::<t::U33>,
    nz::<t::U34>,
    nz::<t::U35>,
    nz::<t::U36>,
    nz::<t::U37>,
    nz::<t::U38>,
    nz::<t::U39>,
    nz::<t::U40>,
    nz::<t::U41>,
    nz::<t::U42>,
    nz::<t::U43>,
    nz::<t::U44>,
    nz::<t::U45>,
    nz::<t::U46>,
    nz::<t::U47>,
    nz::<t::U48>,
    nz::<t::U49>,
    nz::<t::U50>,
    nz::<t::U51>,
    nz::<t::U52>,
    nz::<t::U53>,
    nz::<t::U54>,
    nz::<t::U55>,
    nz::<t::U56>,
    nz::<t::U57>,
    nz::<t::U58>,
    nz::<t::U59>,
    nz::<t::U60>,
    nz::<t::U61>,
    nz::<t::U62>,
    nz::<t::U63>,
    nz::<t::U64>,
    nz::<t::U65>,
    nz::<t::U66>,
    nz::<t::U67>,
    nz::<t::U68>,
    nz::<t::U69>,
    nz::<t::U70>,
    nz::<t::U71>,
    nz::<t::U72>,
    nz::<t::U73>,
    nz::<t::U74>,
    nz::<t::U75>,
    nz::<t::U76>,
    nz::<t::U77>,
    nz::<t::U78>,
    nz::<t::U79>,
    nz::<t::U80>,
    nz::<t::U81>,
    nz::<t::U82>,
    nz::<t::U83>,
    nz::<t::U84>,
    nz::<t::U85>,
    nz::<t::U86>,
    nz::<t::U87>,
    nz::<t::U88>,
    nz::<t::U89>,
    nz::<t::U90>,
    nz::<t::U91>,
    nz::<t::U92>,
    nz::<t::U93>,
    nz::<t::U94>,
    nz::<t::U95>,
    nz::<t::U96>,
    nz::<t::U97>,
    nz::<t::U98>,
    nz::<t::U99>,
    nz::<t::U100>,
    nz::<t::U101>,
    nz::<t::U102>,
    nz::<t::U103>,
    nz::<t::U104>,
    nz::<t::U105>,
    nz::<t::U106>,
    nz::<t::U107>,
    nz::<t::U108>,
    nz::<t::U109>,
    nz::<t::U110>,
    nz::<t::U111>,
    nz::<t::U112>,
    nz::<t::U113>,
    nz::<t::U114>,
    nz::<t::U115>,
    nz::<t::U116>,
    nz::<t::U117>,
    nz::<t::U118>,
    nz::<t::U119>,
    nz::<t::U120>,
    nz::<t::U121>,
    nz::<t::U122>,
    nz::<t::U123>,
    nz::<t::U124>,
    nz::<t::U125>,
    nz::<t::U126>,
    nz::<t::U127>,
    nz::<t::U128>,
    nz::<t::U129>,
    nz::<t::U170>,
    nz::<t::U254>,
    nz::<t::U255>,
    nz::<t::U256>,
    nz::<t::U257>,
    nz::<t::U511>,
    nz::<t::U512>,
    nz::<t::U513>,
    nz::<t::U683>,
    nz::<t::U960>,
    nz::<t::U999>,
    nz::<t::U1000>,
    nz::<L14>,
    nz::<L4>,
    nz::<L10>,
    nz::<L33>,
    nz::<L1>,
    nz::<L17>,
    nz::<L5>,
    nz::<L19>,
    nz::<L2>,
    nz::<L13>,
    nz::<L20>,
    nz::<L6>,
    nz::<L22>,
    nz::<L31>,
    nz::<L23>,
    nz::<L29>,
    nz::<L28>,
    nz::<L8>,
    nz::<L36>,
    nz::<L16>,
    nz::<L25>,
    nz::<L3>,
    nz::<L18>,
    nz::<L30>,
    nz::<L32>,
    nz::<L7>,
    nz::<L35>,
    nz::<L15>,
    nz::<L27>,
    nz::<L12>,
    nz::<L0>,
    nz::<L24>,
    nz::<L34>,
    nz::<L11>,
    nz::<L9>,
    nz::<L26>,
    nz::<L21>,
];
pub static PADS: &[fn() -> Pad] = &[
    pad::<t::U0>,
    pad::<t::U1>,
    pad::<t::U2>,
    pad::<t::U3>,
    pad::<t::U4>,
    pad::<t::U5>,
    pad::<t::U6>,
    pad::<t::U7>,
    pad::<t::U8>,
    pad::<t::U9>,
    pad::<t::U10>,
    pad::<t::U11>,
    pad::<t::U12>,
    pad::<t::U13>,
    pad::<t::U14>,
    pad::<t::U15>,
    pad::<t::U16>,
    pad::<t::U17>,
    pad::<t::U18>,
    pad::<t::U19>,
    pad::<t::U20>,
    pad::<t::U21>,
    pad::<t::U22>,
    pad::<t::U23>,
    pad::<t::U24>,
    pad::<t::U25>,
    pad::<t::U26>,
    pad::<t::U27>,
    pad::<t::U28>,
    pad::<t::U29>,
    pad::<t::U30>,
    pad::<t::U31>,
    pad::<t::U32>,
    pad::<t::U33>,
    pad::<t::U34>,
    pad::<t::U35>,
    pad::<t::U36>,
    pad::<t::U37>,
    pad::<t::U38>,
    pad::<t::U39>,
    pad::<t::U40>,
    pad::<t::U41>,
    pad::<t::U42>,
    pad::<t::U43>,
    pad::<t::U44>,
    pad::<t::U45>,
    pad::<t::U46>,
    pad::<t::U47>,
    pad::<t::U48>,
    pad::<t::U49>,
    pad::<t::U50>,
    pad::<t::U51>,
    pad::<t::U52>,
    pad::<t::U53>,
    pad::<t::U54>,
    pad::<t::U55>,
    pad::<t::U56>,
    pad::<t::U57>,
    pad::<t::U58>,
    pad::<t::U59>,
    pad::<t::U60>,
    pad::<t::U61>,
    pad::<t::U62>,
    pad::<t::U63>,
    pad::<t::U64>,
    pad::<t::U65>,
    pad::<t::U66>,
    pad::<t::U67>,
    pad::<t::U68>,
    pad::<t::U69>,
    pad::<t::U96>,
    pad::<t::U100>,
    pad::<t::U127>,
    pad::<t::U128>,
    pad::<t::U129>,
    pad::<t::U200>,
    pad::<t::U255>,
    pad::<t::U256>,
];
pub static ARRAYS: &[fn() -> Arr] = &[
    arr::<t::U1, u16, 1>,
    arr::<t::U1, u128, 1>,
    arr::<t::U1, u8, 1>,
    arr::<t::U2, [u8; 3], 2>,
    arr::<t::U2, u16, 2>,
    arr::<t::U2, (), 2>,
    arr::<t::U3, (), 3>,
    arr::<t::U3, u8, 3>,
    arr::<t::U3, u64, 3>,
    arr::<t::U4, [u8; 3], 4>,
    arr::<t::U4, u64, 4>,
    arr::<t::U4, Align32, 4>,
    arr::<t::U5, [u8; 3], 5>,
    arr::<t::U5, (), 5>,
    arr::<t::U5, u128, 5>,
    arr::<t::U6, u16, 6>,
    arr::<t::U6, [u8; 3], 6>,
    arr::<t::U6, u128, 6>,
    arr::<t::U7, [u8; 3], 7>,
    arr::<t::U7, u64, 7>,
    arr::<t::U7, u8, 7>,
    arr::<t::U8, u16, 8>,
    arr::<t::U8, u8, 8>,
    arr::<t::U8, [u8; 3], 8>,
    arr::<t::U9, (), 9>,
    arr::<t::U9, u16, 9>,
    arr::<t::U9, u8, 9>,
    arr::<t::U10, [u8; 3], 10>,
    arr::<t::U10, u8, 10>,
    arr::<t::U10, u128, 10>,
    arr::<t::U11, u64, 11>,
    arr::<t::U11, (), 11>,
    arr::<t::U11, u128, 11>,
    arr::<t::U12, (), 12>,
    arr::<t::U12, u128, 12>,
    arr::<t::U12, u16, 12>,
    arr::<t::U13, Align32, 13>,
    arr::<t::U13, [u8; 3], 13>,
    arr::<t::U13, u64, 13>,
    arr::<t::U14, [u8; 3], 14>,
    arr::<t::U14, (), 14>,
    arr::<t::U14, u8, 14>,
    arr::<t::U15, u16, 15>,
    arr::<t::U15, u8, 15>,
    arr::<t::U15, [u8; 3], 15>,
    arr::<t::U16, Align32, 16>,
    arr::<t::U16, u64, 16>,
    arr::<t::U16, u8, 16>,
    arr::<t::U17, u128, 17>,
    arr::<t::U17, u16, 17>,
    arr::<t::U17, u64, 17>,
    arr::<t::U18, (), 18>,
    arr::<t::U18, u8, 18>,
    arr::<t::U18, u128, 18>,
    arr::<t::U19, (), 19>,
    arr::<t::U19, Align32, 19>,
    arr::<t::U19, [u8; 3], 19>,
    arr::<t::U20, (), 20>,
    arr::<t::U20, u64, 20>,
    arr::<t::U20, [u8; 3], 20>,
    arr::<t::U21, u64, 21>,
    arr::<t::U21, u8, 21>,
    arr::<t::U21, (), 21>,
    arr::<t::U22, u16, 22>,
    arr::<t::U22, Align32, 22>,
    arr::<t::U22, (), 22>,
    arr::<t::U23, (), 23>,
    arr::<t::U23, u64, 23>,
    arr::<t::U23, Align32, 23>,
    arr::<t::U24, u8, 24>,
    arr::<t::U24, u16, 24>,
    arr::<t::U24, (), 24>,
    arr::<t::U25, Align32, 25>,
    arr::<t::U25, (), 25>,
    arr::<t::U25, u16, 25>,
    arr::<t::U26, [u8; 3], 26>,
    arr::<t::U26, u16, 26>,
    arr::<t::U26, (), 26>,
    arr::<t::U27, u64, 27>,
    arr::<t::U27, Align32, 27>,
    arr::<t::U27, u8, 27>,
    arr::<t::U28, u128, 28>,
    arr::<t::U28, u16, 28>,
    arr::<t::U28, u8, 28>,
    arr::<t::U29, [u8; 3], 29>,
    arr::<t::U29, Align32, 29>,
    arr::<t::U29, u128, 29>,
    arr::<t::U30, (), 30>,
    arr::<t::U30, u16, 30>,
    arr::<t::U30, u128, 30>,
    arr::<t::U31, (), 31>,
    arr::<t::U31, u128, 31>,
    arr::<t::U31, u8, 31>,
    arr::<t::U32, (), 32>,
    arr::<t::U32, Align32, 32>,
    arr::<t::U32, [u8; 3], 32>,
    arr::<t::U33, u64, 33>,
    arr::<t::U33, u128, 33>,
    arr::<t::U33, Align32, 33>,
    arr::<t::U34, Align32, 34>,
    arr::<t::U34, u16, 34>,
    arr::<t::U34, [u8; 3], 34>,
    arr::<t::U35, u16, 35>,
    arr::<t::U35, u64, 35>,
    arr::<t::U35, (), 35>,
    arr::<t::U36, (), 36>,
    arr::<t::U36, [u8; 3], 36>,
    arr::<t::U36, u128, 36>,
    arr::<t::U37, u16, 37>,
    arr::<t::U37, u128, 37>,
    arr::<t::U37, u64, 37>,
    arr::<t::U38, Align32, 38>,
    arr::<t::U38, u16, 38>,
    arr::<t::U38, [u8; 3], 38>,
    arr::<t::U39, u8, 39>,
    arr::<t::U39, [u8; 3], 39>,
    arr::<t::U39, u128, 39>,
    arr::<t::U63, u64, 63>,
    arr::<t::U63, [u8; 3], 63>,
    arr::<t::U63, u8, 63>,
    arr::<t::U64, (), 64>,
    arr::<t::U64, u128, 64>,
    arr::<t::U64, u16, 64>,
    arr::<t::U65, u64, 65>,
    arr::<t::U65, u8, 65>,
    arr::<t::U65, (), 65>,
    arr::<t::U100, u64, 100>,
    arr::<t::U100, Align32, 100>,
    arr::<t::U100, [u8; 3], 100>,
    arr::<t::U127, u64, 127>,
    arr::<t::U127, u16, 127>,
    arr::<t::U127, (), 127>,
    arr::<t::U128, u16, 128>,
    arr::<t::U128, u128, 128>,
    arr::<t::U128, [u8; 3], 128>,
    arr::<t::U129, u16, 129>,
    arr::<t::U129, (), 129>,
    arr::<t::U129, u8, 129>,
    arr::<t::U200, u8, 200>,
    arr::<t::U200, u128, 200>,
    arr::<t::U200, Align32, 200>,
    arr::<t::U255, [u8; 3], 255>,
    arr::<t::U255, Align32, 255>,
    arr::<t::U255, u16, 255>,
    arr::<t::U256, (), 256>,
    arr::<t::U256, u8, 256>,
    arr::<t::U256, u16, 256>,
    arr::<t::U257, Align32, 257>,
    arr::<t::U257, u16, 257>,
    arr::<t::U257, (), 257>,
    arr::<t::U511, u8, 511>,
    arr::<t::U511, Align32, 511>,
    arr::<t::U511, u64, 511>,
    arr::<t::U1000, (), 1000>,
    arr::<t::U1000, u64, 1000>,
    arr::<t::U1000, u8, 1000>,
];
pub static ALIGNS: &[fn() -> Al] = &[
    al::<t::U1, t::U1>,
    al::<t::U1, t::U2>,
    al::<t::U1, t::U4>,
    al::<t::U1, t::U8>,
    al::<t::U1, t::U16>,
    al::<t::U1, t::U32>,
    al::<t::U1, t::U64>,
    al::<t::U1, t::U128>,
    al::<t::U1, t::U256>,
    al::<t::U1, t::U512>,
    al::<t::U1, L78>,
    al::<t::U1, L79>,
    al::<t::U1, L76>,
    al::<t::U1, L84>,
    al::<t::U1, L83>,
    al::<t::U1, L81>,
    al::<t::U1, L19>,
    al::<t::U2, t::U1>,
    al::<t::U2, t::U2>,
    al::<t::U2, t::U4>,
    al::<t::U2, t::U8>,
    al::<t::U2, t::U16>,
    al::<t::U2, t::U32>,
    al::<t::U2, t::U64>,
    al::<t::U2, t::U128>,
    al::<t::U2, t::U256>,
    al::<t::U2, t::U512>,
    al::<t::U2, L78>,
    al::<t::U2, L79>,
    al::<t::U2, L76>,
    al::<t::U2, L84>,
    al::<t::U2, L83>,
    al::<t::U2, L81>,
    al::<t::U2, L19>,
    al::<t::U4, t::U1>,
    al::<t::U4, t::U2>,
    al::<t::U4, t::U4>,
    al::<t::U4, t::U8>,
    al::<t::U4, t::U16>,
    al::<t::U4, t::U32>,
    al::<t::U4, t::U64>,
    al::<t::U4, t::U128>,
    al::<t::U4, t::U256>,
    al::<t::U4, t::U512>,
    al::<t::U4, L78>,
    al::<t::U4, L79>,
    al::<t::U4, L76>,
    al::<t::U4, L84>,
    al::<t::U4, L83>,
    al::<t::U4, L81>,
    al::<t::U4, L19>,
    al::<t::U8, t::U1>,
    al::<t::U8, t::U2>,
    al::<t::U8, t::U4>,
    al::<t::U8, t::U8>,
    al::<t::U8, t::U16>,
    al::<t::U8, t::U32>,
    al::<t::U8, t::U64>,
    al::<t::U8, t::U128>,
    al::<t::U8, t::U256>,
    al::<t::U8, t::U512>,
    al::<t::U8, L78>,
    al::<t::U8, L79>,
    al::<t::U8, L76>,
    al::<t::U8, L84>,
    al::<t::U8, L83>,
    al::<t::U8, L81>,
    al::<t::U8, L19>,
    al::<t::U16, t::U1>,
    al::<t::U16, t::U2>,
    al::<t::U16, t::U4>,
    al::<t::U16, t::U8>,
    al::<t::U16, t::U16>,
    al::<t::U16, t::U32>,
    al::<t::U16, t::U64>,
    al::<t::U16, t::U128>,
    al::<t::U16, t::U256>,
    al::<t::U16, t::U512>,
    al::<t::U16, L78>,
    al::<t::U16, L79>,
    al::<t::U16, L76>,
    al::<t::U16, L84>,
    al::<t::U16, L83>,
    al::<t::U16, L81>,
    al::<t::U16, L19>,
    al::<t::U32, t::U1>,
    al::<t::U32, t::U2>,
    al::<t::U32, t::U4>,
    al::<t::U32, t::U8>,
    al::<t::U32, t::U16>,
    al::<t::U32, t::U32>,
    al::<t::U32, t::U64>,
    al::<t::U32, t::U128>,
    al::<t::U32, t::U256>,
    al::<t::U32, t::U512>,
    al::<t::U32, L78>,
    al::<t::U32, L79>,
    al::<t::U32, L76>,
    al::<t::U32, L84>,
    al::<t::U32, L83>,
    al::<t::U32, L81>,
    al::<t::U32, L19>,
    al::<t::U64, t::U1>,
    al::<t::U64, t::U2>,
    al::<t::U64, t::U4>,
    al::<t::U64, t::U8>,
    al::<t::U64, t::U16>,
    al::<t::U64, t::U32>,
    al::<t::U64, t::U64>,
    al::<t::U64, t::U128>,
    al::<t::U64, t::U256>,
    al::<t::U64, t::U512>,
    al::<t::U64, L78>,
    al::<t::U64, L79>,
    al::<t::U64, L76>,
    al::<t::U64, L84>,
    al::<t::U64, L83>,
    al::<t::U64, L81>,
    al::<t::U64, L19>,
    al::<t::U128, t::U1>,
    al::<t::U128, t::U2>,
    al::<t::U128, t::U4>,
    al::<t::U128, t::U8>,
    al::<t::U128, t::U16>,
    al::<t::U128, t::U32>,
    al::<t::U128, t::U64>,
    al::<t::U128, t::U128>,
    al::<t::U128, t::U256>,
    al::<t::U128, t::U512>,
    al::<t::U128, L78>,
    al::<t::U128, L79>,
    al::<t::U128, L76>,
    al::<t::U128, L84>,
    al::<t::U128, L83>,
    al::<t::U128, L81>,
    al::<t::U128, L19>,
    al::<t::U256, t::U1>,
    al::<t::U256, t::U2>,
    al::<t::U256, t::U4>,
    al::<t::U256, t::U8>,
    al::<t::U256, t::U16>,
    al::<t::U256, t::U32>,
    al::<t::U256, t::U64>,
    al::<t::U256, t::U128>,
    al::<t::U256, t::U256>,
    al::<t::U256, t::U512>,
    al::<t::U256, L78>,
    al::<t::U256, L79>,
    al::<t::U256, L76>,
    al::<t::U256, L84>,
    al::<t::U256, L83>,
    al::<t::U256, L81>,
    al::<t::U256, L19>,
    al::<t::U512, t::U1>,
    al::<t::U512, t::U2>,
    al::<t::U512, t::U4>,
    al::<t::U512, t::U8>,
    al::<t::U512, t::U16>,
    al::<t::U512, t::U32>,
    al::<t::U512, t::U64>,
    al::<t::U512, t::U128>,
    al::<t::U512, t::U256>,
    al::<t::U512, t::U512>,
    al::<t::U512, L78>,
    al::<t::U512, L79>,
    al::<t::U512, L76>,
    al::<t::U512, L84>,
    al::<t::U512, L83>,
    al::<t::U512, L81>,
    al::<t::U512, L19>,
    al::<L78, t::U1>,
    al::<L78, t::U2>,
    al::<L78, t::U4>,
    al::<L78, t::U8>,
    al::<L78, t::U16>,
    al::<L78, t::U32>,
    al::<L78, t::U64>,
    al::<L78, t::U128>,
    al::<L78, t::U256>,
    al::<L78, t::U512>,
    al::<L78, L78>,
    al::<L78, L79>,
    al::<L78, L76>,
    al::<L78, L84>,
    al::<L78, L83>,
    al::<L78, L81>,
    al::<L78, L19>,
    al::<L79, t::U1>,
    al::<L79, t::U2>,
    al::<L79, t::U4>,
    al::<L79, t::U8>,
    al::<L79, t::U16>,
    al::<L79, t::U32>,
    al::<L79, t::U64>,
    al::<L79, t::U128>,
    al::<L79, t::U256>,
    al::<L79, t::U512>,
    al::<L79, L78>,
    al::<L79, L79>,
    al::<L79, L76>,
    al::<L79, L84>,
    al::<L79, L83>,
    al::<L79, L81>,
    al::<L79, L19>,
    al::<L76, t::U1>,
    al::<L76, t::U2>,
    al::<L76, t::U4>,
    al::<L76, t::U8>,
    al::<L76, t::U16>,
    al::<L76, t::U32>,
    al::<L76, t::U64>,
    al::<L76, t::U128>,
    al::<L76, t::U256>,
    al::<L76, t::U512>,
    al::<L76, L78>,
    al::<L76, L79>,
    al::<L76, L76>,
    al::<L76, L84>,
    al::<L76, L83>,
    al::<L76, L81>,
    al::<L76, L19>,
    al::<L84, t::U1>,
    al::<L84, t::U2>,
    al::<L84, t::U4>,
    al::<L84, t::U8>,
    al::<L84, t::U16>,
    al::<L84, t::U32>,
    al::<L84, t::U64>,
    al::<L84, t::U128>,
    al::<L84, t::U256>,
    al::<L84, t::U512>,
    al::<L84, L78>,
    al::<L84, L79>,
    al::<L84, L76>,
    al::<L84, L84>,
    al::<L84, L83>,
    al::<L84, L81>,
    al::<L84, L19>,
    al::<L83, t::U1>,
    al::<L83, t::U2>,
    al::<L83, t::U4>,
    al::<L83, t::U8>,
    al::<L83, t::U16>,
    al::<L83, t::U32>,
    al::<L83, t::U64>,
    al::<L83, t::U128>,
    al::<L83, t::U256>,
    al::<L83, t::U512>,
    al::<L83, L78>,
    al::<L83, L79>,
    al::<L83, L76>,
    al::<L83, L84>,
    al::<L83, L83>,
    al::<L83, L81>,
    al::<L83, L19>,
    al::<L81, t::U1>,
    al::<L81, t::U2>,
    al::<L81, t::U4>,
    al::<L81, t::U8>,
    al::<L81, t::U16>,
    al::<L81, t::U32>,
    al::<L81, t::U64>,
    al::<L81, t::U128>,
    al::<L81, t::U256>,
    al::<L81, t::U512>,
    al::<L81, L78>,
    al::<L81, L79>,
    al::<L81, L76>,
    al::<L81, L84>,
    al::<L81, L83>,
    al::<L81, L81>,
    al::<L81, L19>,
    al::<L19, t::U1>,
    al::<L19, t::U2>,
    al::<L19, t::U4>,
    al::<L19, t::U8>,
    al::<L19, t::U16>,
    al::<L19, t::U32>,
    al::<L19, t::U64>,
    al::<L19, t::U128>,
    al::<L19, t::U256>,
    al::<L19, t::U512>,
    al::<L19, L78>,
    al::<L19, L79>,
    al::<L19, L76>,
    al::<L19, L84>,
    al::<L19, L83>,
    al::<L19, L81>,
    al::<L19, L19>,
];
pub type M0 = End;
pub type M1 = Array<t::U0, t::U1, End>;
pub type M2 = Array<t::U0, t::U2, End>;
pub type M3 = Array<t::U0, t::U128, End>;
pub type M4 = Array<t::U0, t::U254, End>;
pub type M5 = Array<t::U0, t::U255, End>;
pub type M6 = Array<t::U1, t::U1, End>;
pub type M7 = Array<t::U1, t::U2, End>;
pub type M8 = Array<t::U1, t::U128, End>;
pub type M9 = Array<t::U1, t::U254, End>;
pub type M10 = Array<t::U1, t::U255, End>;
pub type M11 = Array<t::U7, t::U1, End>;
pub type M12 = Array<t::U7, t::U2, End>;
pub type M13 = Array<t::U7, t::U128, End>;
pub type M14 = Array<t::U7, t::U254, End>;
pub type M15 = Array<t::U7, t::U255, End>;
pub type M16 = Array<t::U1, t::U100, Array<t::U3, t::U127, Array<t::U5, t::U128, Array<t::U7, t::U170, End>>>>;
pub type M17 = Array<t::U6, t::U3, End>;
pub type M18 = Array<t::U4, t::U15, Array<t::U8, t::U15, End>>;
pub type M19 = Array<t::U6, t::U255, Array<t::U0, t::U2, Array<t::U2, t::U254, Array<t::U8, t::U254, End>>>>;
pub type M20 = Array<t::U1, t::U127, Array<t::U5, t::U255, Array<t::U8, t::U1, End>>>;
pub type M21 = Array<t::U3, t::U2, Array<t::U7, t::U1, End>>;
pub type M22 = Array<t::U7, t::U255, Array<t::U3, t::U254, Array<t::U10, t::U170, Array<t::U0, t::U128, End>>>>;
pub type M23 = Array<t::U3, t::U1, Array<t::U4, t::U240, Array<t::U9, t::U1, End>>>;
pub type M24 = Array<t::U1, t::U254, Array<t::U2, t::U254, Array<t::U11, t::U255, End>>>;
pub type M25 = Array<t::U1, t::U127, Array<t::U3, t::U170, Array<t::U4, t::U3, Array<t::U8, t::U254, End>>>>;
pub type M26 = Array<t::U5, t::U255, Array<t::U6, t::U240, Array<t::U11, t::U1, End>>>;
pub type M27 = Array<t::U1, t::U170, Array<t::U2, t::U255, End>>;
pub type M28 = Array<t::U6, t::U2, End>;
pub type M29 = Array<t::U6, t::U153, Array<t::U8, t::U1, Array<t::U4, t::U149, End>>>;
pub type M30 = Array<t::U5, t::U240, End>;
pub type M31 = Array<t::U8, t::U255, End>;
pub type M32 = Array<t::U0, t::U255, Array<t::U3, t::U170, Array<t::U5, t::U127, Array<t::U8, t::U15, End>>>>;
pub type M33 = Array<t::U8, t::U255, End>;
pub type M34 = Array<t::U6, t::U128, Array<t::U3, t::U170, Array<t::U9, t::U1, Array<t::U2, t::U209, Array<t::U1, t::U128, End>>>>>;
pub type M35 = Array<t::U0, t::U3, Array<t::U3, t::U127, End>>;
pub type M36 = Array<t::U9, t::U58, End>;
pub type M37 = Array<t::U10, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>;
pub type M38 = Array<t::U7, t::U255, Array<t::U5, t::U15, End>>;
pub type M39 = Array<t::U6, t::U240, End>;
pub type M40 = Array<t::U2, t::U240, End>;
pub type M41 = Array<t::U11, t::U2, End>;
pub type M42 = Array<t::U1, t::U255, Array<t::U6, t::U170, Array<t::U10, t::U128, End>>>;
pub type M43 = Array<t::U1, t::U127, Array<t::U2, t::U3, Array<t::U4, t::U253, Array<t::U7, t::U3, End>>>>;
pub type M44 = Array<t::U10, t::U15, Array<t::U0, t::U255, Array<t::U4, t::U170, Array<t::U7, t::U128, Array<t::U9, t::U240, End>>>>>;
pub type M45 = Array<t::U9, t::U255, Array<t::U8, t::U170, End>>;
pub type M46 = Array<t::U0, t::U115, Array<t::U4, t::U1, Array<t::U9, t::U1, Array<t::U10, t::U255, End>>>>;
pub type M47 = Array<t::U8, t::U128, Array<t::U9, t::U254, Array<t::U11, t::U219, End>>>;
pub type M48 = Array<t::U8, t::U128, Array<t::U9, t::U45, End>>;
pub type M49 = Array<t::U0, t::U127, Array<t::U3, t::U3, Array<t::U8, t::U2, Array<t::U9, t::U1, Array<t::U10, t::U240, End>>>>>;
pub type M50 = Array<t::U0, t::U128, Array<t::U6, t::U3, End>>;
pub type M51 = Array<t::U2, t::U3, Array<t::U9, t::U255, Array<t::U10, t::U127, End>>>;
pub type M52 = Array<t::U7, t::U255, Array<t::U10, t::U170, Array<t::U9, t::U3, Array<t::U6, t::U255, Array<t::U11, t::U170, End>>>>>;
pub type M53 = Array<t::U4, t::U1, Array<t::U7, t::U255, Array<t::U8, t::U176, End>>>;
pub type M54 = Array<t::U0, t::U128, Array<t::U2, t::U2, Array<t::U4, t::U128, Array<t::U5, t::U240, End>>>>;
pub type M55 = Array<t::U6, t::U2, Array<t::U7, t::U235, End>>;
pub type M56 = Array<t::U10, t::U59, Array<t::U2, t::U1, Array<t::U5, t::U3, End>>>;
pub type M57 = Array<t::U5, t::U2, Array<t::U10, t::U255, Array<t::U8, t::U170, Array<t::U7, t::U15, Array<t::U1, t::U240, End>>>>>;
pub type M58 = Array<t::U5, t::U128, Array<t::U8, t::U240, End>>;
pub type M59 = Array<t::U1, t::U2, Array<t::U2, t::U2, Array<t::U5, t::U128, Array<t::U6, t::U3, Array<t::U7, t::U15, End>>>>>;
pub static MASKS: &[(&str, fn() -> Mask, &[(usize, u128)])] = &[
    ("M0", mask::<M0>, &[]),
    ("M1", mask::<M1>, &[(0, 1)]),
    ("M2", mask::<M2>, &[(0, 2)]),
    ("M3", mask::<M3>, &[(0, 128)]),
    ("M4", mask::<M4>, &[(0, 254)]),
    ("M5", mask::<M5>, &[(0, 255)]),
    ("M6", mask::<M6>, &[(1, 1)]),
    ("M7", mask::<M7>, &[(1, 2)]),
    ("M8", mask::<M8>, &[(1, 128)]),
    ("M9", mask::<M9>, &[(1, 254)]),
    ("M10", mask::<M10>, &[(1, 255)]),
    ("M11", mask::<M11>, &[(7, 1)]),
    ("M12", mask::<M12>, &[(7, 2)]),
    ("M13", mask::<M13>, &[(7, 128)]),
    ("M14", mask::<M14>, &[(7, 254)]),
    ("M15", mask::<M15>, &[(7, 255)]),
    ("M16", mask::<M16>, &[(1, 100), (3, 127), (5, 128), (7, 170)]),
    ("M17", mask::<M17>, &[(6, 3)]),
    ("M18", mask::<M18>, &[(4, 15), (8, 15)]),
    ("M19", mask::<M19>, &[(6, 255), (0, 2), (2, 254), (8, 254)]),
    ("M20", mask::<M20>, &[(1, 127), (5, 255), (8, 1)]),
    ("M21", mask::<M21>, &[(3, 2), (7, 1)]),
    ("M22", mask::<M22>, &[(7, 255), (3, 254), (10, 170), (0, 128)]),
    ("M23", mask::<M23>, &[(3, 1), (4, 240), (9, 1)]),
    ("M24", mask::<M24>, &[(1, 254), (2, 254), (11, 255)]),
    ("M25", mask::<M25>, &[(1, 127), (3, 170), (4, 3), (8, 254)]),
    ("M26", mask::<M26>, &[(5, 255), (6, 240), (11, 1)]),
    ("M27", mask::<M27>, &[(1, 170), (2, 255)]),
    ("M28", mask::<M28>, &[(6, 2)]),
    ("M29", mask::<M29>, &[(6, 153), (8, 1), (4, 149)]),
    ("M30", mask::<M30>, &[(5, 240)]),
    ("M31", mask::<M31>, &[(8, 255)]),
    ("M32", mask::<M32>, &[(0, 255), (3, 170), (5, 127), (8, 15)]),
    ("M33", mask::<M33>, &[(8, 255)]),
    ("M34", mask::<M34>, &[(6, 128), (3, 170), (9, 1), (2, 209), (1, 128)]),
    ("M35", mask::<M35>, &[(0, 3), (3, 127)]),
    ("M36", mask::<M36>, &[(9, 58)]),
    ("M37", mask::<M37>, &[(10, 255), (7, 255), (8, 255)]),
    ("M38", mask::<M38>, &[(7, 255), (5, 15)]),
    ("M39", mask::<M39>, &[(6, 240)]),
    ("M40", mask::<M40>, &[(2, 240)]),
    ("M41", mask::<M41>, &[(11, 2)]),
    ("M42", mask::<M42>, &[(1, 255), (6, 170), (10, 128)]),
    ("M43", mask::<M43>, &[(1, 127), (2, 3), (4, 253), (7, 3)]),
    ("M44", mask::<M44>, &[(10, 15), (0, 255), (4, 170), (7, 128), (9, 240)]),
    ("M45", mask::<M45>, &[(9, 255), (8, 170)]),
    ("M46", mask::<M46>, &[(0, 115), (4, 1), (9, 1), (10, 255)]),
    ("M47", mask::<M47>, &[(8, 128), (9, 254), (11, 219)]),
    ("M48", mask::<M48>, &[(8, 128), (9, 45)]),
    ("M49", mask::<M49>, &[(0, 127), (3, 3), (8, 2), (9, 1), (10, 240)]),
    ("M50", mask::<M50>, &[(0, 128), (6, 3)]),
    ("M51", mask::<M51>, &[(2, 3), (9, 255), (10, 127)]),
    ("M52", mask::<M52>, &[(7, 255), (10, 170), (9, 3), (6, 255), (11, 170)]),
    ("M53", mask::<M53>, &[(4, 1), (7, 255), (8, 176)]),
    ("M54", mask::<M54>, &[(0, 128), (2, 2), (4, 128), (5, 240)]),
    ("M55", mask::<M55>, &[(6, 2), (7, 235)]),
    ("M56", mask::<M56>, &[(10, 59), (2, 1), (5, 3)]),
    ("M57", mask::<M57>, &[(5, 2), (10, 255), (8, 170), (7, 15), (1, 240)]),
    ("M58", mask::<M58>, &[(5, 128), (8, 240)]),
    ("M59", mask::<M59>, &[(1, 2), (2, 2), (5, 128), (6, 3), (7, 15)]),
    ("M59 shifted by 0", mask::<<M59 as IBitMask>::Shift<t::U0>>, &[(1, 2), (2, 2), (5, 128), (6, 3), (7, 15)]),
    ("M52 shifted by 11", mask::<<M52 as IBitMask>::Shift<t::U11>>, &[(18, 255), (21, 170), (20, 3), (17, 255), (22, 170)]),
    ("M40 shifted by 11", mask::<<M40 as IBitMask>::Shift<t::U11>>, &[(13, 240)]),
    ("M49 shifted by 2", mask::<<M49 as IBitMask>::Shift<t::U2>>, &[(2, 127), (5, 3), (10, 2), (11, 1), (12, 240)]),
    ("M18 shifted by 8", mask::<<M18 as IBitMask>::Shift<t::U8>>, &[(12, 15), (16, 15)]),
    ("M51 shifted by 11", mask::<<M51 as IBitMask>::Shift<t::U11>>, &[(13, 3), (20, 255), (21, 127)]),
    ("M28 shifted by 8", mask::<<M28 as IBitMask>::Shift<t::U8>>, &[(14, 2)]),
    ("M3 shifted by 11", mask::<<M3 as IBitMask>::Shift<t::U11>>, &[(11, 128)]),
    ("M0 shifted by 8", mask::<<M0 as IBitMask>::Shift<t::U8>>, &[]),
    ("M2 shifted by 3", mask::<<M2 as IBitMask>::Shift<t::U3>>, &[(3, 2)]),
    ("M57 shifted by 8", mask::<<M57 as IBitMask>::Shift<t::U8>>, &[(13, 2), (18, 255), (16, 170), (15, 15), (9, 240)]),
    ("M6 shifted by 3", mask::<<M6 as IBitMask>::Shift<t::U3>>, &[(4, 1)]),
    ("M31 shifted by 0", mask::<<M31 as IBitMask>::Shift<t::U0>>, &[(8, 255)]),
    ("M54 shifted by 2", mask::<<M54 as IBitMask>::Shift<t::U2>>, &[(2, 128), (4, 2), (6, 128), (7, 240)]),
    ("M53 shifted by 1", mask::<<M53 as IBitMask>::Shift<t::U1>>, &[(5, 1), (8, 255), (9, 176)]),
    ("M26 shifted by 1", mask::<<M26 as IBitMask>::Shift<t::U1>>, &[(6, 255), (7, 240), (12, 1)]),
    ("M17 shifted by 2", mask::<<M17 as IBitMask>::Shift<t::U2>>, &[(8, 3)]),
    ("M33 shifted by 2", mask::<<M33 as IBitMask>::Shift<t::U2>>, &[(10, 255)]),
    ("M43 shifted by 2", mask::<<M43 as IBitMask>::Shift<t::U2>>, &[(3, 127), (4, 3), (6, 253), (9, 3)]),
    ("M31 shifted by 0", mask::<<M31 as IBitMask>::Shift<t::U0>>, &[(8, 255)]),
    ("M3 shifted by 0", mask::<<M3 as IBitMask>::Shift<t::U0>>, &[(0, 128)]),
    ("M42 shifted by 1", mask::<<M42 as IBitMask>::Shift<t::U1>>, &[(2, 255), (7, 170), (11, 128)]),
    ("M46 shifted by 3", mask::<<M46 as IBitMask>::Shift<t::U3>>, &[(3, 115), (7, 1), (12, 1), (13, 255)]),
    ("M26 shifted by 11", mask::<<M26 as IBitMask>::Shift<t::U11>>, &[(16, 255), (17, 240), (22, 1)]),
    ("M32 shifted by 3", mask::<<M32 as IBitMask>::Shift<t::U3>>, &[(3, 255), (6, 170), (8, 127), (11, 15)]),
    ("M59 shifted by 0", mask::<<M59 as IBitMask>::Shift<t::U0>>, &[(1, 2), (2, 2), (5, 128), (6, 3), (7, 15)]),
    ("M59 shifted by 2", mask::<<M59 as IBitMask>::Shift<t::U2>>, &[(3, 2), (4, 2), (7, 128), (8, 3), (9, 15)]),
    ("M23 shifted by 1", mask::<<M23 as IBitMask>::Shift<t::U1>>, &[(4, 1), (5, 240), (10, 1)]),
    ("M12 shifted by 1", mask::<<M12 as IBitMask>::Shift<t::U1>>, &[(8, 2)]),
    ("M37 shifted by 8", mask::<<M37 as IBitMask>::Shift<t::U8>>, &[(18, 255), (15, 255), (16, 255)]),
    ("M41 shifted by 2", mask::<<M41 as IBitMask>::Shift<t::U2>>, &[(13, 2)]),
    ("M43 shifted by 3", mask::<<M43 as IBitMask>::Shift<t::U3>>, &[(4, 127), (5, 3), (7, 253), (10, 3)]),
    ("M49 shifted by 1", mask::<<M49 as IBitMask>::Shift<t::U1>>, &[(1, 127), (4, 3), (9, 2), (10, 1), (11, 240)]),
    ("M15 shifted by 0", mask::<<M15 as IBitMask>::Shift<t::U0>>, &[(7, 255)]),
    ("M23 shifted by 1", mask::<<M23 as IBitMask>::Shift<t::U1>>, &[(4, 1), (5, 240), (10, 1)]),
    ("M58 shifted by 11", mask::<<M58 as IBitMask>::Shift<t::U11>>, &[(16, 128), (19, 240)]),
    ("M28 shifted by 11", mask::<<M28 as IBitMask>::Shift<t::U11>>, &[(17, 2)]),
    ("M57 shifted by 2", mask::<<M57 as IBitMask>::Shift<t::U2>>, &[(7, 2), (12, 255), (10, 170), (9, 15), (3, 240)]),
    ("M52 shifted by 2", mask::<<M52 as IBitMask>::Shift<t::U2>>, &[(9, 255), (12, 170), (11, 3), (8, 255), (13, 170)]),
    ("M23 shifted by 2", mask::<<M23 as IBitMask>::Shift<t::U2>>, &[(5, 1), (6, 240), (11, 1)]),
    ("M26 shifted by 1", mask::<<M26 as IBitMask>::Shift<t::U1>>, &[(6, 255), (7, 240), (12, 1)]),
    ("M39 shifted by 8", mask::<<M39 as IBitMask>::Shift<t::U8>>, &[(14, 240)]),
    ("M31 shifted by 8", mask::<<M31 as IBitMask>::Shift<t::U8>>, &[(16, 255)]),
    ("M16 shifted by 0", mask::<<M16 as IBitMask>::Shift<t::U0>>, &[(1, 100), (3, 127), (5, 128), (7, 170)]),
    ("M28 shifted by 2", mask::<<M28 as IBitMask>::Shift<t::U2>>, &[(8, 2)]),
    ("M35 shifted by 1", mask::<<M35 as IBitMask>::Shift<t::U1>>, &[(1, 3), (4, 127)]),
    ("M58 shifted by 2", mask::<<M58 as IBitMask>::Shift<t::U2>>, &[(7, 128), (10, 240)]),
    ("M27 shifted by 2", mask::<<M27 as IBitMask>::Shift<t::U2>>, &[(3, 170), (4, 255)]),
    ("M33 shifted by 1", mask::<<M33 as IBitMask>::Shift<t::U1>>, &[(9, 255)]),
    ("M1 shifted by 3", mask::<<M1 as IBitMask>::Shift<t::U3>>, &[(3, 1)]),
    ("M29 or M5", mask::<<M29 as IBitMask>::BitOr<M5>>, &[(6, 153), (8, 1), (4, 149), (0, 255)]),
    ("M41 or M56", mask::<<M41 as IBitMask>::BitOr<M56>>, &[(11, 2), (10, 59), (2, 1), (5, 3)]),
    ("M26 or M27", mask::<<M26 as IBitMask>::BitOr<M27>>, &[(5, 255), (6, 240), (11, 1), (1, 170), (2, 255)]),
    ("M0 or M28", mask::<<M0 as IBitMask>::BitOr<M28>>, &[(6, 2)]),
    ("M19 or M6", mask::<<M19 as IBitMask>::BitOr<M6>>, &[(6, 255), (0, 2), (2, 254), (8, 254), (1, 1)]),
    ("M43 or M32", mask::<<M43 as IBitMask>::BitOr<M32>>, &[(1, 127), (2, 3), (4, 253), (7, 3), (0, 255), (3, 170), (5, 127), (8, 15)]),
    ("M16 or M36", mask::<<M16 as IBitMask>::BitOr<M36>>, &[(1, 100), (3, 127), (5, 128), (7, 170), (9, 58)]),
    ("M35 or M31", mask::<<M35 as IBitMask>::BitOr<M31>>, &[(0, 3), (3, 127), (8, 255)]),
    ("M33 or M54", mask::<<M33 as IBitMask>::BitOr<M54>>, &[(8, 255), (0, 128), (2, 2), (4, 128), (5, 240)]),
    ("M55 or M10", mask::<<M55 as IBitMask>::BitOr<M10>>, &[(6, 2), (7, 235), (1, 255)]),
    ("M48 or M15", mask::<<M48 as IBitMask>::BitOr<M15>>, &[(8, 128), (9, 45), (7, 255)]),
    ("M30 or M29", mask::<<M30 as IBitMask>::BitOr<M29>>, &[(5, 240), (6, 153), (8, 1), (4, 149)]),
    ("M21 or M58", mask::<<M21 as IBitMask>::BitOr<M58>>, &[(3, 2), (7, 1), (5, 128), (8, 240)]),
    ("M19 or M12", mask::<<M19 as IBitMask>::BitOr<M12>>, &[(6, 255), (0, 2), (2, 254), (8, 254), (7, 2)]),
    ("M28 or M56", mask::<<M28 as IBitMask>::BitOr<M56>>, &[(6, 2), (10, 59), (2, 1), (5, 3)]),
    ("M27 or M28", mask::<<M27 as IBitMask>::BitOr<M28>>, &[(1, 170), (2, 255), (6, 2)]),
    ("M26 or M51", mask::<<M26 as IBitMask>::BitOr<M51>>, &[(5, 255), (6, 240), (11, 1), (2, 3), (9, 255), (10, 127)]),
    ("M30 or M21", mask::<<M30 as IBitMask>::BitOr<M21>>, &[(5, 240), (3, 2), (7, 1)]),
    ("M24 or M0", mask::<<M24 as IBitMask>::BitOr<M0>>, &[(1, 254), (2, 254), (11, 255)]),
    ("M0 or M24", mask::<<M0 as IBitMask>::BitOr<M24>>, &[(1, 254), (2, 254), (11, 255)]),
    ("M23 or M57", mask::<<M23 as IBitMask>::BitOr<M57>>, &[(3, 1), (4, 240), (9, 1), (5, 2), (10, 255), (8, 170), (7, 15), (1, 240)]),
    ("M27 or M37", mask::<<M27 as IBitMask>::BitOr<M37>>, &[(1, 170), (2, 255), (10, 255), (7, 255), (8, 255)]),
    ("M30 or M12", mask::<<M30 as IBitMask>::BitOr<M12>>, &[(5, 240), (7, 2)]),
    ("M3 or M58", mask::<<M3 as IBitMask>::BitOr<M58>>, &[(0, 128), (5, 128), (8, 240)]),
    ("M39 or M5", mask::<<M39 as IBitMask>::BitOr<M5>>, &[(6, 240), (0, 255)]),
    ("M27 or M14", mask::<<M27 as IBitMask>::BitOr<M14>>, &[(1, 170), (2, 255), (7, 254)]),
    ("M31 or M14", mask::<<M31 as IBitMask>::BitOr<M14>>, &[(8, 255), (7, 254)]),
    ("M47 or M3", mask::<<M47 as IBitMask>::BitOr<M3>>, &[(8, 128), (9, 254), (11, 219), (0, 128)]),
    ("M14 or M35", mask::<<M14 as IBitMask>::BitOr<M35>>, &[(7, 254), (0, 3), (3, 127)]),
    ("M41 or M56", mask::<<M41 as IBitMask>::BitOr<M56>>, &[(11, 2), (10, 59), (2, 1), (5, 3)]),
    ("M24 or M15", mask::<<M24 as IBitMask>::BitOr<M15>>, &[(1, 254), (2, 254), (11, 255), (7, 255)]),
    ("M48 or M14", mask::<<M48 as IBitMask>::BitOr<M14>>, &[(8, 128), (9, 45), (7, 254)]),
    ("M43 or M32", mask::<<M43 as IBitMask>::BitOr<M32>>, &[(1, 127), (2, 3), (4, 253), (7, 3), (0, 255), (3, 170), (5, 127), (8, 15)]),
    ("M7 or M23", mask::<<M7 as IBitMask>::BitOr<M23>>, &[(1, 2), (3, 1), (4, 240), (9, 1)]),
    ("M15 or M32", mask::<<M15 as IBitMask>::BitOr<M32>>, &[(7, 255), (0, 255), (3, 170), (5, 127), (8, 15)]),
    ("M37 or M3", mask::<<M37 as IBitMask>::BitOr<M3>>, &[(10, 255), (7, 255), (8, 255), (0, 128)]),
    ("M12 or M39", mask::<<M12 as IBitMask>::BitOr<M39>>, &[(7, 2), (6, 240)]),
    ("M51 or M26", mask::<<M51 as IBitMask>::BitOr<M26>>, &[(2, 3), (9, 255), (10, 127), (5, 255), (6, 240), (11, 1)]),
    ("M8 or M14", mask::<<M8 as IBitMask>::BitOr<M14>>, &[(1, 128), (7, 254)]),
    ("M59 or M35", mask::<<M59 as IBitMask>::BitOr<M35>>, &[(1, 2), (2, 2), (5, 128), (6, 3), (7, 15), (0, 3), (3, 127)]),
    ("M4 or M25", mask::<<M4 as IBitMask>::BitOr<M25>>, &[(0, 254), (1, 127), (3, 170), (4, 3), (8, 254)]),
    ("M48 or M10", mask::<<M48 as IBitMask>::BitOr<M10>>, &[(8, 128), (9, 45), (1, 255)]),
    ("M34 or M4", mask::<<M34 as IBitMask>::BitOr<M4>>, &[(6, 128), (3, 170), (9, 1), (2, 209), (1, 128), (0, 254)]),
    ("M22 or M18", mask::<<M22 as IBitMask>::BitOr<M18>>, &[(7, 255), (3, 254), (10, 170), (0, 128), (4, 15), (8, 15)]),
    ("M33 or M10", mask::<<M33 as IBitMask>::BitOr<M10>>, &[(8, 255), (1, 255)]),
    ("M0 or M46", mask::<<M0 as IBitMask>::BitOr<M46>>, &[(0, 115), (4, 1), (9, 1), (10, 255)]),
    ("M26 or M53", mask::<<M26 as IBitMask>::BitOr<M53>>, &[(5, 255), (6, 240), (11, 1), (4, 1), (7, 255), (8, 176)]),
    ("M32 or M13", mask::<<M32 as IBitMask>::BitOr<M13>>, &[(0, 255), (3, 170), (5, 127), (8, 15), (7, 128)]),
    ("M58 or M13", mask::<<M58 as IBitMask>::BitOr<M13>>, &[(5, 128), (8, 240), (7, 128)]),
    ("M8 or M15", mask::<<M8 as IBitMask>::BitOr<M15>>, &[(1, 128), (7, 255)]),
    ("M56 or M0", mask::<<M56 as IBitMask>::BitOr<M0>>, &[(10, 59), (2, 1), (5, 3)]),
    ("M40 or M15", mask::<<M40 as IBitMask>::BitOr<M15>>, &[(2, 240), (7, 255)]),
    ("M41 or M49", mask::<<M41 as IBitMask>::BitOr<M49>>, &[(11, 2), (0, 127), (3, 3), (8, 2), (9, 1), (10, 240)]),
    ("M17 or M41", mask::<<M17 as IBitMask>::BitOr<M41>>, &[(6, 3), (11, 2)]),
    ("M24 or M39", mask::<<M24 as IBitMask>::BitOr<M39>>, &[(1, 254), (2, 254), (11, 255), (6, 240)]),
    ("M22 or M36", mask::<<M22 as IBitMask>::BitOr<M36>>, &[(7, 255), (3, 254), (10, 170), (0, 128), (9, 58)]),
    ("M43 or M0", mask::<<M43 as IBitMask>::BitOr<M0>>, &[(1, 127), (2, 3), (4, 253), (7, 3)]),
    ("M22 or M41", mask::<<M22 as IBitMask>::BitOr<M41>>, &[(7, 255), (3, 254), (10, 170), (0, 128), (11, 2)]),
    ("M29 or M22", mask::<<M29 as IBitMask>::BitOr<M22>>, &[(6, 153), (8, 1), (4, 149), (7, 255), (3, 254), (10, 170), (0, 128)]),
    ("M4 or M59", mask::<<M4 as IBitMask>::BitOr<M59>>, &[(0, 254), (1, 2), (2, 2), (5, 128), (6, 3), (7, 15)]),
    ("M51 and M7", mask::<<M51 as IBitMask>::BitAnd<M7>>, &[]),
    ("M4 and M19", mask::<<M4 as IBitMask>::BitAnd<M19>>, &[(0, 2)]),
    ("M53 and M20", mask::<<M53 as IBitMask>::BitAnd<M20>>, &[]),
    ("M27 and M42", mask::<<M27 as IBitMask>::BitAnd<M42>>, &[(1, 170)]),
    ("M47 and M47", mask::<<M47 as IBitMask>::BitAnd<M47>>, &[(8, 128), (9, 254), (11, 219)]),
    ("M16 and M38", mask::<<M16 as IBitMask>::BitAnd<M38>>, &[(7, 170)]),
    ("M36 and M14", mask::<<M36 as IBitMask>::BitAnd<M14>>, &[]),
    ("M53 and M14", mask::<<M53 as IBitMask>::BitAnd<M14>>, &[(7, 254)]),
    ("M34 and M50", mask::<<M34 as IBitMask>::BitAnd<M50>>, &[]),
    ("M0 and M8", mask::<<M0 as IBitMask>::BitAnd<M8>>, &[]),
    ("M52 and M50", mask::<<M52 as IBitMask>::BitAnd<M50>>, &[(6, 3)]),
    ("M16 and M6", mask::<<M16 as IBitMask>::BitAnd<M6>>, &[]),
    ("M16 and M56", mask::<<M16 as IBitMask>::BitAnd<M56>>, &[]),
    ("M42 and M22", mask::<<M42 as IBitMask>::BitAnd<M22>>, &[(10, 128)]),
    ("M52 and M19", mask::<<M52 as IBitMask>::BitAnd<M19>>, &[(6, 255)]),
    ("M11 and M41", mask::<<M11 as IBitMask>::BitAnd<M41>>, &[]),
    ("M51 and M22", mask::<<M51 as IBitMask>::BitAnd<M22>>, &[(10, 42)]),
    ("M55 and M17", mask::<<M55 as IBitMask>::BitAnd<M17>>, &[(6, 2)]),
    ("M11 and M41", mask::<<M11 as IBitMask>::BitAnd<M41>>, &[]),
    ("M34 and M54", mask::<<M34 as IBitMask>::BitAnd<M54>>, &[]),
    ("M57 and M55", mask::<<M57 as IBitMask>::BitAnd<M55>>, &[(7, 11)]),
    ("M28 and M53", mask::<<M28 as IBitMask>::BitAnd<M53>>, &[]),
    ("M44 and M50", mask::<<M44 as IBitMask>::BitAnd<M50>>, &[(0, 128)]),
    ("M52 and M38", mask::<<M52 as IBitMask>::BitAnd<M38>>, &[(7, 255)]),
    ("M38 and M35", mask::<<M38 as IBitMask>::BitAnd<M35>>, &[]),
    ("M18 and M44", mask::<<M18 as IBitMask>::BitAnd<M44>>, &[(4, 10)]),
    ("M16 and M58", mask::<<M16 as IBitMask>::BitAnd<M58>>, &[(5, 128)]),
    ("M15 and M3", mask::<<M15 as IBitMask>::BitAnd<M3>>, &[]),
    ("M7 and M9", mask::<<M7 as IBitMask>::BitAnd<M9>>, &[(1, 2)]),
    ("M38 and M56", mask::<<M38 as IBitMask>::BitAnd<M56>>, &[(5, 3)]),
    ("M30 and M5", mask::<<M30 as IBitMask>::BitAnd<M5>>, &[]),
    ("M33 and M20", mask::<<M33 as IBitMask>::BitAnd<M20>>, &[(8, 1)]),
    ("M19 and M43", mask::<<M19 as IBitMask>::BitAnd<M43>>, &[(2, 2)]),
    ("M10 and M52", mask::<<M10 as IBitMask>::BitAnd<M52>>, &[]),
    ("M46 and M2", mask::<<M46 as IBitMask>::BitAnd<M2>>, &[(0, 2)]),
    ("M57 and M6", mask::<<M57 as IBitMask>::BitAnd<M6>>, &[]),
    ("M47 and M14", mask::<<M47 as IBitMask>::BitAnd<M14>>, &[]),
    ("M26 and M50", mask::<<M26 as IBitMask>::BitAnd<M50>>, &[]),
    ("M55 and M14", mask::<<M55 as IBitMask>::BitAnd<M14>>, &[(7, 234)]),
    ("M53 and M59", mask::<<M53 as IBitMask>::BitAnd<M59>>, &[(7, 15)]),
    ("M34 and M7", mask::<<M34 as IBitMask>::BitAnd<M7>>, &[]),
    ("M53 and M16", mask::<<M53 as IBitMask>::BitAnd<M16>>, &[(7, 170)]),
    ("M42 and M9", mask::<<M42 as IBitMask>::BitAnd<M9>>, &[(1, 254)]),
    ("M36 and M36", mask::<<M36 as IBitMask>::BitAnd<M36>>, &[(9, 58)]),
    ("M56 and M22", mask::<<M56 as IBitMask>::BitAnd<M22>>, &[(10, 42)]),
    ("M31 and M56", mask::<<M31 as IBitMask>::BitAnd<M56>>, &[]),
    ("M32 and M23", mask::<<M32 as IBitMask>::BitAnd<M23>>, &[]),
    ("M22 and M23", mask::<<M22 as IBitMask>::BitAnd<M23>>, &[]),
    ("M5 and M0", mask::<<M5 as IBitMask>::BitAnd<M0>>, &[]),
    ("M54 and M49", mask::<<M54 as IBitMask>::BitAnd<M49>>, &[]),
    ("M27 and M34", mask::<<M27 as IBitMask>::BitAnd<M34>>, &[(1, 128), (2, 209)]),
    ("M3 and M39", mask::<<M3 as IBitMask>::BitAnd<M39>>, &[]),
    ("M34 and M35", mask::<<M34 as IBitMask>::BitAnd<M35>>, &[(3, 42)]),
    ("M51 and M51", mask::<<M51 as IBitMask>::BitAnd<M51>>, &[(2, 3), (9, 255), (10, 127)]),
    ("M51 and M6", mask::<<M51 as IBitMask>::BitAnd<M6>>, &[]),
    ("M24 and M7", mask::<<M24 as IBitMask>::BitAnd<M7>>, &[(1, 2)]),
    ("M12 and M37", mask::<<M12 as IBitMask>::BitAnd<M37>>, &[(7, 2)]),
    ("M26 and M2", mask::<<M26 as IBitMask>::BitAnd<M2>>, &[]),
    ("M21 and M37", mask::<<M21 as IBitMask>::BitAnd<M37>>, &[(7, 1)]),
    ("M53 and M16", mask::<<M53 as IBitMask>::BitAnd<M16>>, &[(7, 170)]),
    ("M44 and M39", mask::<<M44 as IBitMask>::BitAnd<M39>>, &[]),
    ("M7 and M9", mask::<<M7 as IBitMask>::BitAnd<M9>>, &[(1, 2)]),
    ("M53 and M43", mask::<<M53 as IBitMask>::BitAnd<M43>>, &[(4, 1), (7, 3)]),
    ("M49 and M52", mask::<<M49 as IBitMask>::BitAnd<M52>>, &[(9, 1), (10, 160)]),
    ("M21 and M23", mask::<<M21 as IBitMask>::BitAnd<M23>>, &[]),
    ("M21 and M55", mask::<<M21 as IBitMask>::BitAnd<M55>>, &[(7, 1)]),
    ("M32 and M6", mask::<<M32 as IBitMask>::BitAnd<M6>>, &[]),
    ("M36 and M36", mask::<<M36 as IBitMask>::BitAnd<M36>>, &[(9, 58)]),
    ("M13 and M14", mask::<<M13 as IBitMask>::BitAnd<M14>>, &[(7, 128)]),
    ("M0 and M36", mask::<<M0 as IBitMask>::BitAnd<M36>>, &[]),
    ("M11 and M59", mask::<<M11 as IBitMask>::BitAnd<M59>>, &[(7, 1)]),
    ("M38 and M44", mask::<<M38 as IBitMask>::BitAnd<M44>>, &[(7, 128)]),
    ("M9 and M54", mask::<<M9 as IBitMask>::BitAnd<M54>>, &[]),
    ("M25 and M32", mask::<<M25 as IBitMask>::BitAnd<M32>>, &[(3, 170), (8, 14)]),
    ("M44 and M4", mask::<<M44 as IBitMask>::BitAnd<M4>>, &[(0, 254)]),
    ("M40 and M31", mask::<<M40 as IBitMask>::BitAnd<M31>>, &[]),
    ("M29 and M57", mask::<<M29 as IBitMask>::BitAnd<M57>>, &[]),
    ("M30 and M26", mask::<<M30 as IBitMask>::BitAnd<M26>>, &[(5, 240)]),
    ("M24 and M46", mask::<<M24 as IBitMask>::BitAnd<M46>>, &[]),
    ("M14 and M16", mask::<<M14 as IBitMask>::BitAnd<M16>>, &[(7, 170)]),
    ("M37 and M13", mask::<<M37 as IBitMask>::BitAnd<M13>>, &[(7, 128)]),
    ("M55 and M10", mask::<<M55 as IBitMask>::BitAnd<M10>>, &[]),
    ("M25 and M25", mask::<<M25 as IBitMask>::BitAnd<M25>>, &[(1, 127), (3, 170), (4, 3), (8, 254)]),
    ("M37 and M37", mask::<<M37 as IBitMask>::BitAnd<M37>>, &[(10, 255), (7, 255), (8, 255)]),
    ("M30 and M30", mask::<<M30 as IBitMask>::BitAnd<M30>>, &[(5, 240)]),
    ("M15 and M11", mask::<<M15 as IBitMask>::BitAnd<M11>>, &[(7, 1)]),
    ("M9 and M57", mask::<<M9 as IBitMask>::BitAnd<M57>>, &[(1, 240)]),
    ("M39 and M16", mask::<<M39 as IBitMask>::BitAnd<M16>>, &[]),
    ("M43 and M34", mask::<<M43 as IBitMask>::BitAnd<M34>>, &[(2, 1)]),
    ("M50 and M26", mask::<<M50 as IBitMask>::BitAnd<M26>>, &[]),
    ("padding of 0", mask::<<t::U0 as IUnsignedBase>::PaddingBitMask>, &[]),
    ("padding of 1", mask::<<t::U1 as IUnsignedBase>::PaddingBitMask>, &[(0, 255)]),
    ("padding of 2", mask::<<t::U2 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255)]),
    ("padding of 3", mask::<<t::U3 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255)]),
    ("padding of 4", mask::<<t::U4 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255)]),
    ("padding of 5", mask::<<t::U5 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255)]),
    ("padding of 6", mask::<<t::U6 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255)]),
    ("padding of 7", mask::<<t::U7 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255)]),
    ("padding of 8", mask::<<t::U8 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255)]),
    ("padding of 9", mask::<<t::U9 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255)]),
    ("padding of 10", mask::<<t::U10 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255)]),
    ("padding of 11", mask::<<t::U11 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255)]),
    ("padding of 12", mask::<<t::U12 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255), (11, 255)]),
    ("padding of 13", mask::<<t::U13 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255), (11, 255), (12, 255)]),
    ("padding of 14", mask::<<t::U14 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255), (11, 255), (12, 255), (13, 255)]),
    ("padding of 15", mask::<<t::U15 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255), (11, 255), (12, 255), (13, 255), (14, 255)]),
    ("padding of 16", mask::<<t::U16 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255), (11, 255), (12, 255), (13, 255), (14, 255), (15, 255)]),
    ("padding of 17", mask::<<t::U17 as IUnsignedBase>::PaddingBitMask>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255), (11, 255), (12, 255), (13, 255), (14, 255), (15, 255), (16, 255)]),
];
pub static CHAINS: &[(&str, &[fn() -> (usize, u128)], fn() -> bool, &[(usize, u128)])] = &[
    ("M1", &[bit::<M1>], is_end::<X<M1>>, &[(0, 1)]),
    ("M2", &[bit::<M2>], is_end::<X<M2>>, &[(0, 2)]),
    ("M3", &[bit::<M3>], is_end::<X<M3>>, &[(0, 128)]),
    ("M4", &[bit::<M4>, bit::<X<M4>>, bit::<X<X<M4>>>, bit::<X<X<X<M4>>>>, bit::<X<X<X<X<M4>>>>>, bit::<X<X<X<X<X<M4>>>>>>, bit::<X<X<X<X<X<X<M4>>>>>>>], is_end::<X<X<X<X<X<X<X<M4>>>>>>>>, &[(0, 254)]),
    ("M5", &[bit::<M5>, bit::<X<M5>>, bit::<X<X<M5>>>, bit::<X<X<X<M5>>>>, bit::<X<X<X<X<M5>>>>>, bit::<X<X<X<X<X<M5>>>>>>, bit::<X<X<X<X<X<X<M5>>>>>>>, bit::<X<X<X<X<X<X<X<M5>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M5>>>>>>>>>, &[(0, 255)]),
    ("M6", &[bit::<M6>], is_end::<X<M6>>, &[(1, 1)]),
    ("M7", &[bit::<M7>], is_end::<X<M7>>, &[(1, 2)]),
    ("M8", &[bit::<M8>], is_end::<X<M8>>, &[(1, 128)]),
    ("M9", &[bit::<M9>, bit::<X<M9>>, bit::<X<X<M9>>>, bit::<X<X<X<M9>>>>, bit::<X<X<X<X<M9>>>>>, bit::<X<X<X<X<X<M9>>>>>>, bit::<X<X<X<X<X<X<M9>>>>>>>], is_end::<X<X<X<X<X<X<X<M9>>>>>>>>, &[(1, 254)]),
    ("M10", &[bit::<M10>, bit::<X<M10>>, bit::<X<X<M10>>>, bit::<X<X<X<M10>>>>, bit::<X<X<X<X<M10>>>>>, bit::<X<X<X<X<X<M10>>>>>>, bit::<X<X<X<X<X<X<M10>>>>>>>, bit::<X<X<X<X<X<X<X<M10>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M10>>>>>>>>>, &[(1, 255)]),
    ("M11", &[bit::<M11>], is_end::<X<M11>>, &[(7, 1)]),
    ("M12", &[bit::<M12>], is_end::<X<M12>>, &[(7, 2)]),
    ("M13", &[bit::<M13>], is_end::<X<M13>>, &[(7, 128)]),
    ("M14", &[bit::<M14>, bit::<X<M14>>, bit::<X<X<M14>>>, bit::<X<X<X<M14>>>>, bit::<X<X<X<X<M14>>>>>, bit::<X<X<X<X<X<M14>>>>>>, bit::<X<X<X<X<X<X<M14>>>>>>>], is_end::<X<X<X<X<X<X<X<M14>>>>>>>>, &[(7, 254)]),
    ("M15", &[bit::<M15>, bit::<X<M15>>, bit::<X<X<M15>>>, bit::<X<X<X<M15>>>>, bit::<X<X<X<X<M15>>>>>, bit::<X<X<X<X<X<M15>>>>>>, bit::<X<X<X<X<X<X<M15>>>>>>>, bit::<X<X<X<X<X<X<X<M15>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M15>>>>>>>>>, &[(7, 255)]),
    ("M16", &[bit::<M16>, bit::<X<M16>>, bit::<X<X<M16>>>, bit::<X<X<X<M16>>>>, bit::<X<X<X<X<M16>>>>>, bit::<X<X<X<X<X<M16>>>>>>, bit::<X<X<X<X<X<X<M16>>>>>>>, bit::<X<X<X<X<X<X<X<M16>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M16>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M16>>>>>>>>>>>>>>>>, &[(1, 100), (3, 127), (5, 128), (7, 170)]),
    ("M17", &[bit::<M17>, bit::<X<M17>>], is_end::<X<X<M17>>>, &[(6, 3)]),
    ("M18", &[bit::<M18>, bit::<X<M18>>, bit::<X<X<M18>>>, bit::<X<X<X<M18>>>>, bit::<X<X<X<X<M18>>>>>, bit::<X<X<X<X<X<M18>>>>>>, bit::<X<X<X<X<X<X<M18>>>>>>>, bit::<X<X<X<X<X<X<X<M18>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M18>>>>>>>>>, &[(4, 15), (8, 15)]),
    ("M20", &[bit::<M20>, bit::<X<M20>>, bit::<X<X<M20>>>, bit::<X<X<X<M20>>>>, bit::<X<X<X<X<M20>>>>>, bit::<X<X<X<X<X<M20>>>>>>, bit::<X<X<X<X<X<X<M20>>>>>>>, bit::<X<X<X<X<X<X<X<M20>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M20>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M20>>>>>>>>>>>>>>>>>, &[(1, 127), (5, 255), (8, 1)]),
    ("M21", &[bit::<M21>, bit::<X<M21>>], is_end::<X<X<M21>>>, &[(3, 2), (7, 1)]),
    ("M22", &[bit::<M22>, bit::<X<M22>>, bit::<X<X<M22>>>, bit::<X<X<X<M22>>>>, bit::<X<X<X<X<M22>>>>>, bit::<X<X<X<X<X<M22>>>>>>, bit::<X<X<X<X<X<X<M22>>>>>>>, bit::<X<X<X<X<X<X<X<M22>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M22>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M22>>>>>>>>>>>>>>>>>>>>>, &[(7, 255), (3, 254), (10, 170), (0, 128)]),
    ("M23", &[bit::<M23>, bit::<X<M23>>, bit::<X<X<M23>>>, bit::<X<X<X<M23>>>>, bit::<X<X<X<X<M23>>>>>, bit::<X<X<X<X<X<M23>>>>>>], is_end::<X<X<X<X<X<X<M23>>>>>>>, &[(3, 1), (4, 240), (9, 1)]),
    ("M25", &[bit::<M25>, bit::<X<M25>>, bit::<X<X<M25>>>, bit::<X<X<X<M25>>>>, bit::<X<X<X<X<M25>>>>>, bit::<X<X<X<X<X<M25>>>>>>, bit::<X<X<X<X<X<X<M25>>>>>>>, bit::<X<X<X<X<X<X<X<M25>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M25>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M25>>>>>>>>>>>>>>>>>>>>>, &[(1, 127), (3, 170), (4, 3), (8, 254)]),
    ("M26", &[bit::<M26>, bit::<X<M26>>, bit::<X<X<M26>>>, bit::<X<X<X<M26>>>>, bit::<X<X<X<X<M26>>>>>, bit::<X<X<X<X<X<M26>>>>>>, bit::<X<X<X<X<X<X<M26>>>>>>>, bit::<X<X<X<X<X<X<X<M26>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M26>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M26>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M26>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M26>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M26>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<M26>>>>>>>>>>>>>>, &[(5, 255), (6, 240), (11, 1)]),
    ("M27", &[bit::<M27>, bit::<X<M27>>, bit::<X<X<M27>>>, bit::<X<X<X<M27>>>>, bit::<X<X<X<X<M27>>>>>, bit::<X<X<X<X<X<M27>>>>>>, bit::<X<X<X<X<X<X<M27>>>>>>>, bit::<X<X<X<X<X<X<X<M27>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M27>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M27>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M27>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M27>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<M27>>>>>>>>>>>>>, &[(1, 170), (2, 255)]),
    ("M28", &[bit::<M28>], is_end::<X<M28>>, &[(6, 2)]),
    ("M29", &[bit::<M29>, bit::<X<M29>>, bit::<X<X<M29>>>, bit::<X<X<X<M29>>>>, bit::<X<X<X<X<M29>>>>>, bit::<X<X<X<X<X<M29>>>>>>, bit::<X<X<X<X<X<X<M29>>>>>>>, bit::<X<X<X<X<X<X<X<M29>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M29>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<M29>>>>>>>>>>, &[(6, 153), (8, 1), (4, 149)]),
    ("M30", &[bit::<M30>, bit::<X<M30>>, bit::<X<X<M30>>>, bit::<X<X<X<M30>>>>], is_end::<X<X<X<X<M30>>>>>, &[(5, 240)]),
    ("M31", &[bit::<M31>, bit::<X<M31>>, bit::<X<X<M31>>>, bit::<X<X<X<M31>>>>, bit::<X<X<X<X<M31>>>>>, bit::<X<X<X<X<X<M31>>>>>>, bit::<X<X<X<X<X<X<M31>>>>>>>, bit::<X<X<X<X<X<X<X<M31>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M31>>>>>>>>>, &[(8, 255)]),
    ("M33", &[bit::<M33>, bit::<X<M33>>, bit::<X<X<M33>>>, bit::<X<X<X<M33>>>>, bit::<X<X<X<X<M33>>>>>, bit::<X<X<X<X<X<M33>>>>>>, bit::<X<X<X<X<X<X<M33>>>>>>>, bit::<X<X<X<X<X<X<X<M33>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M33>>>>>>>>>, &[(8, 255)]),
    ("M34", &[bit::<M34>, bit::<X<M34>>, bit::<X<X<M34>>>, bit::<X<X<X<M34>>>>, bit::<X<X<X<X<M34>>>>>, bit::<X<X<X<X<X<M34>>>>>>, bit::<X<X<X<X<X<X<M34>>>>>>>, bit::<X<X<X<X<X<X<X<M34>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M34>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M34>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M34>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<M34>>>>>>>>>>>>, &[(6, 128), (3, 170), (9, 1), (2, 209), (1, 128)]),
    ("M35", &[bit::<M35>, bit::<X<M35>>, bit::<X<X<M35>>>, bit::<X<X<X<M35>>>>, bit::<X<X<X<X<M35>>>>>, bit::<X<X<X<X<X<M35>>>>>>, bit::<X<X<X<X<X<X<M35>>>>>>>, bit::<X<X<X<X<X<X<X<M35>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M35>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<M35>>>>>>>>>>, &[(0, 3), (3, 127)]),
    ("M36", &[bit::<M36>, bit::<X<M36>>, bit::<X<X<M36>>>, bit::<X<X<X<M36>>>>], is_end::<X<X<X<X<M36>>>>>, &[(9, 58)]),
    ("M38", &[bit::<M38>, bit::<X<M38>>, bit::<X<X<M38>>>, bit::<X<X<X<M38>>>>, bit::<X<X<X<X<M38>>>>>, bit::<X<X<X<X<X<M38>>>>>>, bit::<X<X<X<X<X<X<M38>>>>>>>, bit::<X<X<X<X<X<X<X<M38>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M38>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M38>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M38>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M38>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<M38>>>>>>>>>>>>>, &[(7, 255), (5, 15)]),
    ("M39", &[bit::<M39>, bit::<X<M39>>, bit::<X<X<M39>>>, bit::<X<X<X<M39>>>>], is_end::<X<X<X<X<M39>>>>>, &[(6, 240)]),
    ("M40", &[bit::<M40>, bit::<X<M40>>, bit::<X<X<M40>>>, bit::<X<X<X<M40>>>>], is_end::<X<X<X<X<M40>>>>>, &[(2, 240)]),
    ("M41", &[bit::<M41>], is_end::<X<M41>>, &[(11, 2)]),
    ("M42", &[bit::<M42>, bit::<X<M42>>, bit::<X<X<M42>>>, bit::<X<X<X<M42>>>>, bit::<X<X<X<X<M42>>>>>, bit::<X<X<X<X<X<M42>>>>>>, bit::<X<X<X<X<X<X<M42>>>>>>>, bit::<X<X<X<X<X<X<X<M42>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M42>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M42>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M42>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M42>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M42>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<M42>>>>>>>>>>>>>>, &[(1, 255), (6, 170), (10, 128)]),
    ("M43", &[bit::<M43>, bit::<X<M43>>, bit::<X<X<M43>>>, bit::<X<X<X<M43>>>>, bit::<X<X<X<X<M43>>>>>, bit::<X<X<X<X<X<M43>>>>>>, bit::<X<X<X<X<X<X<M43>>>>>>>, bit::<X<X<X<X<X<X<X<M43>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M43>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M43>>>>>>>>>>>>>>>>>>>, &[(1, 127), (2, 3), (4, 253), (7, 3)]),
    ("M45", &[bit::<M45>, bit::<X<M45>>, bit::<X<X<M45>>>, bit::<X<X<X<M45>>>>, bit::<X<X<X<X<M45>>>>>, bit::<X<X<X<X<X<M45>>>>>>, bit::<X<X<X<X<X<X<M45>>>>>>>, bit::<X<X<X<X<X<X<X<M45>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M45>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M45>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M45>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M45>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<M45>>>>>>>>>>>>>, &[(9, 255), (8, 170)]),
    ("M46", &[bit::<M46>, bit::<X<M46>>, bit::<X<X<M46>>>, bit::<X<X<X<M46>>>>, bit::<X<X<X<X<M46>>>>>, bit::<X<X<X<X<X<M46>>>>>>, bit::<X<X<X<X<X<X<M46>>>>>>>, bit::<X<X<X<X<X<X<X<M46>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M46>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M46>>>>>>>>>>>>>>>>, &[(0, 115), (4, 1), (9, 1), (10, 255)]),
    ("M47", &[bit::<M47>, bit::<X<M47>>, bit::<X<X<M47>>>, bit::<X<X<X<M47>>>>, bit::<X<X<X<X<M47>>>>>, bit::<X<X<X<X<X<M47>>>>>>, bit::<X<X<X<X<X<X<M47>>>>>>>, bit::<X<X<X<X<X<X<X<M47>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M47>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M47>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M47>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M47>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M47>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M47>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M47>>>>>>>>>>>>>>>, &[(8, 128), (9, 254), (11, 219)]),
    ("M48", &[bit::<M48>, bit::<X<M48>>, bit::<X<X<M48>>>, bit::<X<X<X<M48>>>>, bit::<X<X<X<X<M48>>>>>], is_end::<X<X<X<X<X<M48>>>>>>, &[(8, 128), (9, 45)]),
    ("M49", &[bit::<M49>, bit::<X<M49>>, bit::<X<X<M49>>>, bit::<X<X<X<M49>>>>, bit::<X<X<X<X<M49>>>>>, bit::<X<X<X<X<X<M49>>>>>>, bit::<X<X<X<X<X<X<M49>>>>>>>, bit::<X<X<X<X<X<X<X<M49>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M49>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M49>>>>>>>>>>>>>>>>, &[(0, 127), (3, 3), (8, 2), (9, 1), (10, 240)]),
    ("M50", &[bit::<M50>, bit::<X<M50>>, bit::<X<X<M50>>>], is_end::<X<X<X<M50>>>>, &[(0, 128), (6, 3)]),
    ("M51", &[bit::<M51>, bit::<X<M51>>, bit::<X<X<M51>>>, bit::<X<X<X<M51>>>>, bit::<X<X<X<X<M51>>>>>, bit::<X<X<X<X<X<M51>>>>>>, bit::<X<X<X<X<X<X<M51>>>>>>>, bit::<X<X<X<X<X<X<X<M51>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M51>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<X<M51>>>>>>>>>>>>>>>>>>, &[(2, 3), (9, 255), (10, 127)]),
    ("M53", &[bit::<M53>, bit::<X<M53>>, bit::<X<X<M53>>>, bit::<X<X<X<M53>>>>, bit::<X<X<X<X<M53>>>>>, bit::<X<X<X<X<X<M53>>>>>>, bit::<X<X<X<X<X<X<M53>>>>>>>, bit::<X<X<X<X<X<X<X<M53>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M53>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<M53>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<M53>>>>>>>>>>>, bit::<X<X<X<X<X<X<X<X<X<X<X<M53>>>>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<X<X<X<M53>>>>>>>>>>>>>, &[(4, 1), (7, 255), (8, 176)]),
    ("M54", &[bit::<M54>, bit::<X<M54>>, bit::<X<X<M54>>>, bit::<X<X<X<M54>>>>, bit::<X<X<X<X<M54>>>>>, bit::<X<X<X<X<X<M54>>>>>>, bit::<X<X<X<X<X<X<M54>>>>>>>], is_end::<X<X<X<X<X<X<X<M54>>>>>>>>, &[(0, 128), (2, 2), (4, 128), (5, 240)]),
    ("M55", &[bit::<M55>, bit::<X<M55>>, bit::<X<X<M55>>>, bit::<X<X<X<M55>>>>, bit::<X<X<X<X<M55>>>>>, bit::<X<X<X<X<X<M55>>>>>>, bit::<X<X<X<X<X<X<M55>>>>>>>], is_end::<X<X<X<X<X<X<X<M55>>>>>>>>, &[(6, 2), (7, 235)]),
    ("M56", &[bit::<M56>, bit::<X<M56>>, bit::<X<X<M56>>>, bit::<X<X<X<M56>>>>, bit::<X<X<X<X<M56>>>>>, bit::<X<X<X<X<X<M56>>>>>>, bit::<X<X<X<X<X<X<M56>>>>>>>, bit::<X<X<X<X<X<X<X<M56>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<M56>>>>>>>>>, &[(10, 59), (2, 1), (5, 3)]),
    ("M58", &[bit::<M58>, bit::<X<M58>>, bit::<X<X<M58>>>, bit::<X<X<X<M58>>>>, bit::<X<X<X<X<M58>>>>>], is_end::<X<X<X<X<X<M58>>>>>>, &[(5, 128), (8, 240)]),
    ("M59", &[bit::<M59>, bit::<X<M59>>, bit::<X<X<M59>>>, bit::<X<X<X<M59>>>>, bit::<X<X<X<X<M59>>>>>, bit::<X<X<X<X<X<M59>>>>>>, bit::<X<X<X<X<X<X<M59>>>>>>>, bit::<X<X<X<X<X<X<X<M59>>>>>>>>, bit::<X<X<X<X<X<X<X<X<M59>>>>>>>>>], is_end::<X<X<X<X<X<X<X<X<X<M59>>>>>>>>>>, &[(1, 2), (2, 2), (5, 128), (6, 3), (7, 15)]),
];
pub type F0 = End;
pub type F1 = ForbiddenRange<t::U2, t::U255, t::U0>;
pub type F2 = Array<t::U0, t::U0, End>;
pub type F3 = Array<t::U0, t::U0, Array<t::U1, t::U0, Array<t::U2, t::U0, Array<t::U3, t::U0, Array<t::U4, t::U0, Array<t::U5, t::U0, Array<t::U6, t::U0, Array<t::U7, t::U0, End>>>>>>>>;
pub type F4 = Array<t::U0, t::U0, Array<t::U1, t::U0, End>>;
pub type F5 = Array<t::U8, t::U2, Array<t::U9, t::U0, Array<t::U10, t::U127, End>>>;
pub type F6 = Or<Or<ForbiddenRange<t::U254, t::U255, t::U0>, ForbiddenRange<t::U100, t::U101, t::U0>>, Array<t::U0, t::U2, Array<t::U1, t::U2, Array<t::U3, t::U255, End>>>>;
pub type F7 = Or<Or<ForbiddenRange<t::U0, t::U101, t::U0>, ForbiddenRange<t::U254, t::U255, t::U0>>, ForbiddenRange<t::U100, t::U254, t::U3>>;
pub type F8 = ForbiddenRange<t::U0, t::U1, t::U0>;
pub type F9 = Or<ForbiddenRange<t::U100, t::U101, t::U1>, Or<ForbiddenRange<t::U254, t::U255, t::U8>, Array<t::U1, t::U1, Array<t::U2, t::U128, Array<t::U3, t::U0, End>>>>>;
pub type F10 = Or<Array<t::U0, t::U127, Array<t::U4, t::U2, End>>, Or<Array<t::U4, t::U255, Array<t::U7, t::U255, End>>, Array<t::U0, t::U128, Array<t::U2, t::U128, End>>>>;
pub type F11 = Array<t::U3, t::U127, End>;
pub type F12 = Or<ForbiddenRange<t::U1, t::U101, t::U6>, Or<Array<t::U0, t::U1, Array<t::U1, t::U128, Array<t::U2, t::U255, End>>>, ForbiddenRange<t::U1, t::U255, t::U3>>>;
pub type F13 = Or<Or<Array<t::U3, t::U0, Array<t::U5, t::U0, Array<t::U7, t::U127, End>>>, ForbiddenRange<t::U0, t::U5, t::U2>>, ForbiddenRange<t::U254, t::U255, t::U2>>;
pub type F14 = Or<Array<t::U3, t::U2, End>, Or<ForbiddenRange<t::U1, t::U3, t::U0>, Array<t::U10, t::U0, End>>>;
pub type F15 = Or<Array<t::U10, t::U1, End>, Array<t::U0, t::U255, Array<t::U1, t::U0, Array<t::U3, t::U1, End>>>>;
pub type F16 = Or<Array<t::U2, t::U2, Array<t::U3, t::U128, End>>, Array<t::U6, t::U2, Array<t::U7, t::U2, Array<t::U8, t::U1, End>>>>;
pub type F17 = Or<Array<t::U3, t::U127, End>, ForbiddenRange<t::U1, t::U101, t::U4>>;
pub type F18 = Or<Or<Array<t::U2, t::U128, Array<t::U4, t::U128, End>>, Array<t::U1, t::U0, End>>, Array<t::U0, t::U255, Array<t::U2, t::U1, Array<t::U3, t::U127, End>>>>;
pub type F19 = Or<Or<ForbiddenRange<t::U100, t::U255, t::U3>, Array<t::U5, t::U1, Array<t::U7, t::U127, End>>>, ForbiddenRange<t::U100, t::U101, t::U0>>;
pub type F20 = Array<t::U6, t::U2, End>;
pub type F21 = Or<Array<t::U6, t::U2, End>, ForbiddenRange<t::U1, t::U254, t::U2>>;
pub type F22 = Or<ForbiddenRange<t::U1, t::U101, t::U3>, ForbiddenRange<t::U100, t::U254, t::U3>>;
pub type F23 = ForbiddenRange<t::U0, t::U101, t::U7>;
pub type F24 = Or<ForbiddenRange<t::U3, t::U5, t::U9>, Or<ForbiddenRange<t::U254, t::U255, t::U3>, Array<t::U8, t::U127, Array<t::U10, t::U128, End>>>>;
pub type F25 = ForbiddenRange<t::U254, t::U255, t::U6>;
pub type F26 = Array<t::U0, t::U2, Array<t::U2, t::U255, End>>;
pub type F27 = Or<ForbiddenRange<t::U0, t::U1, t::U3>, Or<Array<t::U3, t::U128, Array<t::U5, t::U128, Array<t::U6, t::U0, End>>>, Array<t::U1, t::U0, Array<t::U2, t::U0, End>>>>;
pub type F28 = Or<Or<Array<t::U4, t::U0, Array<t::U5, t::U0, Array<t::U7, t::U1, End>>>, Array<t::U0, t::U2, Array<t::U3, t::U255, End>>>, ForbiddenRange<t::U1, t::U3, t::U6>>;
pub type F29 = ForbiddenRange<t::U254, t::U255, t::U1>;
pub type F30 = Or<Or<Array<t::U1, t::U0, Array<t::U3, t::U1, Array<t::U4, t::U0, End>>>, Array<t::U3, t::U127, Array<t::U5, t::U0, Array<t::U7, t::U1, End>>>>, Array<t::U1, t::U127, End>>;
pub type F31 = Or<Or<Array<t::U5, t::U128, End>, Array<t::U3, t::U1, End>>, ForbiddenRange<t::U100, t::U254, t::U3>>;
pub type F32 = Or<ForbiddenRange<t::U1, t::U254, t::U9>, ForbiddenRange<t::U1, t::U101, t::U7>>;
pub type F33 = Array<t::U3, t::U0, Array<t::U4, t::U127, End>>;
pub type F34 = Or<ForbiddenRange<t::U3, t::U5, t::U3>, Array<t::U1, t::U0, End>>;
pub type F35 = ForbiddenRange<t::U3, t::U254, t::U5>;
pub type F36 = Or<Or<Array<t::U7, t::U0, Array<t::U8, t::U0, End>>, ForbiddenRange<t::U254, t::U255, t::U3>>, ForbiddenRange<t::U3, t::U5, t::U5>>;
pub type F37 = Or<Array<t::U6, t::U1, Array<t::U7, t::U0, Array<t::U8, t::U1, End>>>, ForbiddenRange<t::U254, t::U255, t::U3>>;
pub type F38 = Array<t::U7, t::U0, Array<t::U9, t::U128, Array<t::U10, t::U1, End>>>;
pub type F39 = Array<t::U6, t::U0, End>;
pub static FORBIDDEN: &[(&str, fn(*const u8) -> bool, &[&[(usize, u8, u8)]])] = &[
    ("F0", forbidden::<F0>, &[]),
    ("F1", forbidden::<F1>, &[&[(0, 2, 255)]]),
    ("F2", forbidden::<F2>, &[&[(0, 0, 0)]]),
    ("F3", forbidden::<F3>, &[&[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F4", forbidden::<F4>, &[&[(0, 0, 0), (1, 0, 0)]]),
    ("F5", forbidden::<F5>, &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F6", forbidden::<F6>, &[&[(0, 254, 255)], &[(0, 100, 101)], &[(0, 2, 2), (1, 2, 2), (3, 255, 255)]]),
    ("F7", forbidden::<F7>, &[&[(0, 0, 101)], &[(0, 254, 255)], &[(3, 100, 254)]]),
    ("F8", forbidden::<F8>, &[&[(0, 0, 1)]]),
    ("F9", forbidden::<F9>, &[&[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F10", forbidden::<F10>, &[&[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F11", forbidden::<F11>, &[&[(3, 127, 127)]]),
    ("F12", forbidden::<F12>, &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)]]),
    ("F13", forbidden::<F13>, &[&[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)]]),
    ("F14", forbidden::<F14>, &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F15", forbidden::<F15>, &[&[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)]]),
    ("F16", forbidden::<F16>, &[&[(2, 2, 2), (3, 128, 128)], &[(6, 2, 2), (7, 2, 2), (8, 1, 1)]]),
    ("F17", forbidden::<F17>, &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F18", forbidden::<F18>, &[&[(2, 128, 128), (4, 128, 128)], &[(1, 0, 0)], &[(0, 255, 255), (2, 1, 1), (3, 127, 127)]]),
    ("F19", forbidden::<F19>, &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F20", forbidden::<F20>, &[&[(6, 2, 2)]]),
    ("F21", forbidden::<F21>, &[&[(6, 2, 2)], &[(2, 1, 254)]]),
    ("F22", forbidden::<F22>, &[&[(3, 1, 101)], &[(3, 100, 254)]]),
    ("F23", forbidden::<F23>, &[&[(7, 0, 101)]]),
    ("F24", forbidden::<F24>, &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F25", forbidden::<F25>, &[&[(6, 254, 255)]]),
    ("F26", forbidden::<F26>, &[&[(0, 2, 2), (2, 255, 255)]]),
    ("F27", forbidden::<F27>, &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F28", forbidden::<F28>, &[&[(4, 0, 0), (5, 0, 0), (7, 1, 1)], &[(0, 2, 2), (3, 255, 255)], &[(6, 1, 3)]]),
    ("F29", forbidden::<F29>, &[&[(1, 254, 255)]]),
    ("F30", forbidden::<F30>, &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F31", forbidden::<F31>, &[&[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)]]),
    ("F32", forbidden::<F32>, &[&[(9, 1, 254)], &[(7, 1, 101)]]),
    ("F33", forbidden::<F33>, &[&[(3, 0, 0), (4, 127, 127)]]),
    ("F34", forbidden::<F34>, &[&[(3, 3, 5)], &[(1, 0, 0)]]),
    ("F35", forbidden::<F35>, &[&[(5, 3, 254)]]),
    ("F36", forbidden::<F36>, &[&[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)]]),
    ("F37", forbidden::<F37>, &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F38", forbidden::<F38>, &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F39", forbidden::<F39>, &[&[(6, 0, 0)]]),
    ("F36 shifted by 8", forbidden::<<F36 as IForbiddenValues>::Shift<t::U8>>, &[&[(15, 0, 0), (16, 0, 0)], &[(11, 254, 255)], &[(13, 3, 5)]]),
    ("F10 shifted by 0", forbidden::<<F10 as IForbiddenValues>::Shift<t::U0>>, &[&[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F28 shifted by 5", forbidden::<<F28 as IForbiddenValues>::Shift<t::U5>>, &[&[(9, 0, 0), (10, 0, 0), (12, 1, 1)], &[(5, 2, 2), (8, 255, 255)], &[(11, 1, 3)]]),
    ("F2 shifted by 2", forbidden::<<F2 as IForbiddenValues>::Shift<t::U2>>, &[&[(2, 0, 0)]]),
    ("F23 shifted by 5", forbidden::<<F23 as IForbiddenValues>::Shift<t::U5>>, &[&[(12, 0, 101)]]),
    ("F26 shifted by 0", forbidden::<<F26 as IForbiddenValues>::Shift<t::U0>>, &[&[(0, 2, 2), (2, 255, 255)]]),
    ("F23 shifted by 2", forbidden::<<F23 as IForbiddenValues>::Shift<t::U2>>, &[&[(9, 0, 101)]]),
    ("F29 shifted by 2", forbidden::<<F29 as IForbiddenValues>::Shift<t::U2>>, &[&[(3, 254, 255)]]),
    ("F2 shifted by 0", forbidden::<<F2 as IForbiddenValues>::Shift<t::U0>>, &[&[(0, 0, 0)]]),
    ("F26 shifted by 5", forbidden::<<F26 as IForbiddenValues>::Shift<t::U5>>, &[&[(5, 2, 2), (7, 255, 255)]]),
    ("F0 shifted by 8", forbidden::<<F0 as IForbiddenValues>::Shift<t::U8>>, &[]),
    ("F8 shifted by 5", forbidden::<<F8 as IForbiddenValues>::Shift<t::U5>>, &[&[(5, 0, 1)]]),
    ("F29 shifted by 5", forbidden::<<F29 as IForbiddenValues>::Shift<t::U5>>, &[&[(6, 254, 255)]]),
    ("F32 shifted by 8", forbidden::<<F32 as IForbiddenValues>::Shift<t::U8>>, &[&[(17, 1, 254)], &[(15, 1, 101)]]),
    ("F1 shifted by 0", forbidden::<<F1 as IForbiddenValues>::Shift<t::U0>>, &[&[(0, 2, 255)]]),
    ("F12 shifted by 2", forbidden::<<F12 as IForbiddenValues>::Shift<t::U2>>, &[&[(8, 1, 101)], &[(2, 1, 1), (3, 128, 128), (4, 255, 255)], &[(5, 1, 255)]]),
    ("F0 shifted by 0", forbidden::<<F0 as IForbiddenValues>::Shift<t::U0>>, &[]),
    ("F15 shifted by 5", forbidden::<<F15 as IForbiddenValues>::Shift<t::U5>>, &[&[(15, 1, 1)], &[(5, 255, 255), (6, 0, 0), (8, 1, 1)]]),
    ("F8 shifted by 8", forbidden::<<F8 as IForbiddenValues>::Shift<t::U8>>, &[&[(8, 0, 1)]]),
    ("F34 shifted by 0", forbidden::<<F34 as IForbiddenValues>::Shift<t::U0>>, &[&[(3, 3, 5)], &[(1, 0, 0)]]),
    ("F25 shifted by 1", forbidden::<<F25 as IForbiddenValues>::Shift<t::U1>>, &[&[(7, 254, 255)]]),
    ("F3 shifted by 5", forbidden::<<F3 as IForbiddenValues>::Shift<t::U5>>, &[&[(5, 0, 0), (6, 0, 0), (7, 0, 0), (8, 0, 0), (9, 0, 0), (10, 0, 0), (11, 0, 0), (12, 0, 0)]]),
    ("F24 shifted by 0", forbidden::<<F24 as IForbiddenValues>::Shift<t::U0>>, &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F35 shifted by 2", forbidden::<<F35 as IForbiddenValues>::Shift<t::U2>>, &[&[(7, 3, 254)]]),
    ("F34 shifted by 0", forbidden::<<F34 as IForbiddenValues>::Shift<t::U0>>, &[&[(3, 3, 5)], &[(1, 0, 0)]]),
    ("F5 shifted by 0", forbidden::<<F5 as IForbiddenValues>::Shift<t::U0>>, &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F17 shifted by 0", forbidden::<<F17 as IForbiddenValues>::Shift<t::U0>>, &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F35 shifted by 1", forbidden::<<F35 as IForbiddenValues>::Shift<t::U1>>, &[&[(6, 3, 254)]]),
    ("F23 shifted by 0", forbidden::<<F23 as IForbiddenValues>::Shift<t::U0>>, &[&[(7, 0, 101)]]),
    ("F13 shifted by 8", forbidden::<<F13 as IForbiddenValues>::Shift<t::U8>>, &[&[(11, 0, 0), (13, 0, 0), (15, 127, 127)], &[(10, 0, 5)], &[(10, 254, 255)]]),
    ("F25 shifted by 5", forbidden::<<F25 as IForbiddenValues>::Shift<t::U5>>, &[&[(11, 254, 255)]]),
    ("F30 shifted by 2", forbidden::<<F30 as IForbiddenValues>::Shift<t::U2>>, &[&[(3, 0, 0), (5, 1, 1), (6, 0, 0)], &[(5, 127, 127), (7, 0, 0), (9, 1, 1)], &[(3, 127, 127)]]),
    ("F15 shifted by 1", forbidden::<<F15 as IForbiddenValues>::Shift<t::U1>>, &[&[(11, 1, 1)], &[(1, 255, 255), (2, 0, 0), (4, 1, 1)]]),
    ("F24 shifted by 2", forbidden::<<F24 as IForbiddenValues>::Shift<t::U2>>, &[&[(11, 3, 5)], &[(5, 254, 255)], &[(10, 127, 127), (12, 128, 128)]]),
    ("F3 shifted by 5", forbidden::<<F3 as IForbiddenValues>::Shift<t::U5>>, &[&[(5, 0, 0), (6, 0, 0), (7, 0, 0), (8, 0, 0), (9, 0, 0), (10, 0, 0), (11, 0, 0), (12, 0, 0)]]),
    ("F4 shifted by 8", forbidden::<<F4 as IForbiddenValues>::Shift<t::U8>>, &[&[(8, 0, 0), (9, 0, 0)]]),
    ("F17 shifted by 8", forbidden::<<F17 as IForbiddenValues>::Shift<t::U8>>, &[&[(11, 127, 127)], &[(12, 1, 101)]]),
    ("F39 shifted by 1", forbidden::<<F39 as IForbiddenValues>::Shift<t::U1>>, &[&[(7, 0, 0)]]),
    ("F28 shifted by 8", forbidden::<<F28 as IForbiddenValues>::Shift<t::U8>>, &[&[(12, 0, 0), (13, 0, 0), (15, 1, 1)], &[(8, 2, 2), (11, 255, 255)], &[(14, 1, 3)]]),
    ("F31 shifted by 2", forbidden::<<F31 as IForbiddenValues>::Shift<t::U2>>, &[&[(7, 128, 128)], &[(5, 1, 1)], &[(5, 100, 254)]]),
    ("F33 shifted by 8", forbidden::<<F33 as IForbiddenValues>::Shift<t::U8>>, &[&[(11, 0, 0), (12, 127, 127)]]),
    ("F32 shifted by 2", forbidden::<<F32 as IForbiddenValues>::Shift<t::U2>>, &[&[(11, 1, 254)], &[(9, 1, 101)]]),
    ("F16 shifted by 8", forbidden::<<F16 as IForbiddenValues>::Shift<t::U8>>, &[&[(10, 2, 2), (11, 128, 128)], &[(14, 2, 2), (15, 2, 2), (16, 1, 1)]]),
    ("F6 shifted by 8", forbidden::<<F6 as IForbiddenValues>::Shift<t::U8>>, &[&[(8, 254, 255)], &[(8, 100, 101)], &[(8, 2, 2), (9, 2, 2), (11, 255, 255)]]),
    ("F8 shifted by 0", forbidden::<<F8 as IForbiddenValues>::Shift<t::U0>>, &[&[(0, 0, 1)]]),
    ("F30 shifted by 5", forbidden::<<F30 as IForbiddenValues>::Shift<t::U5>>, &[&[(6, 0, 0), (8, 1, 1), (9, 0, 0)], &[(8, 127, 127), (10, 0, 0), (12, 1, 1)], &[(6, 127, 127)]]),
    ("F9 shifted by 8", forbidden::<<F9 as IForbiddenValues>::Shift<t::U8>>, &[&[(9, 100, 101)], &[(16, 254, 255)], &[(9, 1, 1), (10, 128, 128), (11, 0, 0)]]),
    ("F13 shifted by 5", forbidden::<<F13 as IForbiddenValues>::Shift<t::U5>>, &[&[(8, 0, 0), (10, 0, 0), (12, 127, 127)], &[(7, 0, 5)], &[(7, 254, 255)]]),
    ("F16 shifted by 1", forbidden::<<F16 as IForbiddenValues>::Shift<t::U1>>, &[&[(3, 2, 2), (4, 128, 128)], &[(7, 2, 2), (8, 2, 2), (9, 1, 1)]]),
    ("F10 shifted by 0", forbidden::<<F10 as IForbiddenValues>::Shift<t::U0>>, &[&[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F34 or F37", forbidden::<<F34 as IForbiddenValues>::Or<F37>>, &[&[(3, 3, 5)], &[(1, 0, 0)], &[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F14 or F17", forbidden::<<F14 as IForbiddenValues>::Or<F17>>, &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)], &[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F25 or F11", forbidden::<<F25 as IForbiddenValues>::Or<F11>>, &[&[(6, 254, 255)], &[(3, 127, 127)]]),
    ("F15 or F5", forbidden::<<F15 as IForbiddenValues>::Or<F5>>, &[&[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)], &[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F36 or F26", forbidden::<<F36 as IForbiddenValues>::Or<F26>>, &[&[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)], &[(0, 2, 2), (2, 255, 255)]]),
    ("F38 or F20", forbidden::<<F38 as IForbiddenValues>::Or<F20>>, &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)], &[(6, 2, 2)]]),
    ("F8 or F0", forbidden::<<F8 as IForbiddenValues>::Or<F0>>, &[&[(0, 0, 1)]]),
    ("F15 or F25", forbidden::<<F15 as IForbiddenValues>::Or<F25>>, &[&[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)], &[(6, 254, 255)]]),
    ("F11 or F22", forbidden::<<F11 as IForbiddenValues>::Or<F22>>, &[&[(3, 127, 127)], &[(3, 1, 101)], &[(3, 100, 254)]]),
    ("F29 or F27", forbidden::<<F29 as IForbiddenValues>::Or<F27>>, &[&[(1, 254, 255)], &[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F28 or F10", forbidden::<<F28 as IForbiddenValues>::Or<F10>>, &[&[(4, 0, 0), (5, 0, 0), (7, 1, 1)], &[(0, 2, 2), (3, 255, 255)], &[(6, 1, 3)], &[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F27 or F9", forbidden::<<F27 as IForbiddenValues>::Or<F9>>, &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)], &[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F23 or F38", forbidden::<<F23 as IForbiddenValues>::Or<F38>>, &[&[(7, 0, 101)], &[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F38 or F5", forbidden::<<F38 as IForbiddenValues>::Or<F5>>, &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)], &[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F16 or F9", forbidden::<<F16 as IForbiddenValues>::Or<F9>>, &[&[(2, 2, 2), (3, 128, 128)], &[(6, 2, 2), (7, 2, 2), (8, 1, 1)], &[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F9 or F9", forbidden::<<F9 as IForbiddenValues>::Or<F9>>, &[&[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)], &[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F32 or F39", forbidden::<<F32 as IForbiddenValues>::Or<F39>>, &[&[(9, 1, 254)], &[(7, 1, 101)], &[(6, 0, 0)]]),
    ("F26 or F37", forbidden::<<F26 as IForbiddenValues>::Or<F37>>, &[&[(0, 2, 2), (2, 255, 255)], &[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F11 or F17", forbidden::<<F11 as IForbiddenValues>::Or<F17>>, &[&[(3, 127, 127)], &[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F27 or F36", forbidden::<<F27 as IForbiddenValues>::Or<F36>>, &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)], &[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)]]),
    ("F12 or F31", forbidden::<<F12 as IForbiddenValues>::Or<F31>>, &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)], &[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)]]),
    ("F19 or F27", forbidden::<<F19 as IForbiddenValues>::Or<F27>>, &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)], &[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F24 or F37", forbidden::<<F24 as IForbiddenValues>::Or<F37>>, &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)], &[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F27 or F35", forbidden::<<F27 as IForbiddenValues>::Or<F35>>, &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)], &[(5, 3, 254)]]),
    ("F5 or F33", forbidden::<<F5 as IForbiddenValues>::Or<F33>>, &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)], &[(3, 0, 0), (4, 127, 127)]]),
    ("F0 or F17", forbidden::<<F0 as IForbiddenValues>::Or<F17>>, &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F9 or F22", forbidden::<<F9 as IForbiddenValues>::Or<F22>>, &[&[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)], &[(3, 1, 101)], &[(3, 100, 254)]]),
    ("F33 or F18", forbidden::<<F33 as IForbiddenValues>::Or<F18>>, &[&[(3, 0, 0), (4, 127, 127)], &[(2, 128, 128), (4, 128, 128)], &[(1, 0, 0)], &[(0, 255, 255), (2, 1, 1), (3, 127, 127)]]),
    ("F26 or F18", forbidden::<<F26 as IForbiddenValues>::Or<F18>>, &[&[(0, 2, 2), (2, 255, 255)], &[(2, 128, 128), (4, 128, 128)], &[(1, 0, 0)], &[(0, 255, 255), (2, 1, 1), (3, 127, 127)]]),
    ("F30 or F27", forbidden::<<F30 as IForbiddenValues>::Or<F27>>, &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)], &[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F38 or F22", forbidden::<<F38 as IForbiddenValues>::Or<F22>>, &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)], &[(3, 1, 101)], &[(3, 100, 254)]]),
    ("F14 or F19", forbidden::<<F14 as IForbiddenValues>::Or<F19>>, &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)], &[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F12 or F11", forbidden::<<F12 as IForbiddenValues>::Or<F11>>, &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)], &[(3, 127, 127)]]),
    ("F11 or F19", forbidden::<<F11 as IForbiddenValues>::Or<F19>>, &[&[(3, 127, 127)], &[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F23 or F31", forbidden::<<F23 as IForbiddenValues>::Or<F31>>, &[&[(7, 0, 101)], &[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)]]),
    ("F5 or F15", forbidden::<<F5 as IForbiddenValues>::Or<F15>>, &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)], &[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)]]),
    ("F14 or F39", forbidden::<<F14 as IForbiddenValues>::Or<F39>>, &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)], &[(6, 0, 0)]]),
    ("F31 or F13", forbidden::<<F31 as IForbiddenValues>::Or<F13>>, &[&[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)], &[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)]]),
    ("F17 or F14", forbidden::<<F17 as IForbiddenValues>::Or<F14>>, &[&[(3, 127, 127)], &[(4, 1, 101)], &[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F9 or F35", forbidden::<<F9 as IForbiddenValues>::Or<F35>>, &[&[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)], &[(5, 3, 254)]]),
    ("F38 or F36", forbidden::<<F38 as IForbiddenValues>::Or<F36>>, &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)], &[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)]]),
    ("F25 or F3", forbidden::<<F25 as IForbiddenValues>::Or<F3>>, &[&[(6, 254, 255)], &[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F11 or F20", forbidden::<<F11 as IForbiddenValues>::Or<F20>>, &[&[(3, 127, 127)], &[(6, 2, 2)]]),
    ("F34 or F9", forbidden::<<F34 as IForbiddenValues>::Or<F9>>, &[&[(3, 3, 5)], &[(1, 0, 0)], &[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F33 or F13", forbidden::<<F33 as IForbiddenValues>::Or<F13>>, &[&[(3, 0, 0), (4, 127, 127)], &[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)]]),
    ("F15 or F8", forbidden::<<F15 as IForbiddenValues>::Or<F8>>, &[&[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)], &[(0, 0, 1)]]),
    ("F6 or F3", forbidden::<<F6 as IForbiddenValues>::Or<F3>>, &[&[(0, 254, 255)], &[(0, 100, 101)], &[(0, 2, 2), (1, 2, 2), (3, 255, 255)], &[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F8 or F4", forbidden::<<F8 as IForbiddenValues>::Or<F4>>, &[&[(0, 0, 1)], &[(0, 0, 0), (1, 0, 0)]]),
    ("F32 or F1", forbidden::<<F32 as IForbiddenValues>::Or<F1>>, &[&[(9, 1, 254)], &[(7, 1, 101)], &[(0, 2, 255)]]),
    ("F35 or F30", forbidden::<<F35 as IForbiddenValues>::Or<F30>>, &[&[(5, 3, 254)], &[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F13 or F15", forbidden::<<F13 as IForbiddenValues>::Or<F15>>, &[&[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)], &[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)]]),
    ("F38 or F8", forbidden::<<F38 as IForbiddenValues>::Or<F8>>, &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)], &[(0, 0, 1)]]),
    ("F12 or F23", forbidden::<<F12 as IForbiddenValues>::Or<F23>>, &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)], &[(7, 0, 101)]]),
    ("F4 or F19", forbidden::<<F4 as IForbiddenValues>::Or<F19>>, &[&[(0, 0, 0), (1, 0, 0)], &[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F5 or F5", forbidden::<<F5 as IForbiddenValues>::Or<F5>>, &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)], &[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F37 or F31", forbidden::<<F37 as IForbiddenValues>::Or<F31>>, &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)], &[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)]]),
    ("F28 or F19", forbidden::<<F28 as IForbiddenValues>::Or<F19>>, &[&[(4, 0, 0), (5, 0, 0), (7, 1, 1)], &[(0, 2, 2), (3, 255, 255)], &[(6, 1, 3)], &[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F0 or F19", forbidden::<<F0 as IForbiddenValues>::Or<F19>>, &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F13 or F2", forbidden::<<F13 as IForbiddenValues>::Or<F2>>, &[&[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)], &[(0, 0, 0)]]),
    ("F39 or F26", forbidden::<<F39 as IForbiddenValues>::Or<F26>>, &[&[(6, 0, 0)], &[(0, 2, 2), (2, 255, 255)]]),
];
pub static SELECT: &[(&str, fn() -> Option<Vec<(usize, u128)>>, fn(*const u8) -> bool, &[(usize, u128)], &[&[(usize, u8, u8)]])] = &[
    ("F2 within [(0, 255)]", select::<<F2 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, End>>>, forbidden::<F2>, &[(0, 255)], &[&[(0, 0, 0)]]),
    ("F39 within [(0, 255), (3, 255), (6, 255), (7, 255), (8, 255), (10, 255)]", select::<<F39 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F39>, &[(0, 255), (3, 255), (6, 255), (7, 255), (8, 255), (10, 255)], &[&[(6, 0, 0)]]),
    ("F30 within [(0, 255), (1, 255), (3, 255), (4, 255), (5, 255), (7, 255), (8, 255)]", select::<<F30 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>>>>>, forbidden::<F30>, &[(0, 255), (1, 255), (3, 255), (4, 255), (5, 255), (7, 255), (8, 255)], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F38 within [(0, 255), (1, 255), (5, 255), (6, 255), (7, 255), (9, 255), (10, 255)]", select::<<F38 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>, forbidden::<F38>, &[(0, 255), (1, 255), (5, 255), (6, 255), (7, 255), (9, 255), (10, 255)], &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F33 within [(1, 255), (4, 255)]", select::<<F33 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U255, End>>>>, forbidden::<F33>, &[(1, 255), (4, 255)], &[&[(3, 0, 0), (4, 127, 127)]]),
    ("F18 within []", select::<<F18 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F18>, &[], &[&[(2, 128, 128), (4, 128, 128)], &[(1, 0, 0)], &[(0, 255, 255), (2, 1, 1), (3, 127, 127)]]),
    ("F11 within [(3, 255)]", select::<<F11 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, End>>>, forbidden::<F11>, &[(3, 255)], &[&[(3, 127, 127)]]),
    ("F23 within []", select::<<F23 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F23>, &[], &[&[(7, 0, 101)]]),
    ("F17 within []", select::<<F17 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F17>, &[], &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F23 within [(1, 255), (4, 255), (5, 255), (6, 255), (7, 255)]", select::<<F23 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, End>>>>>>>, forbidden::<F23>, &[(1, 255), (4, 255), (5, 255), (6, 255), (7, 255)], &[&[(7, 0, 101)]]),
    ("F24 within [(4, 255), (7, 255), (9, 255), (10, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U4, t::U255, Array<t::U7, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>, forbidden::<F24>, &[(4, 255), (7, 255), (9, 255), (10, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F31 within [(2, 255), (3, 255), (6, 255), (7, 255)]", select::<<F31 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, End>>>>>>, forbidden::<F31>, &[(2, 255), (3, 255), (6, 255), (7, 255)], &[&[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)]]),
    ("F30 within [(3, 15), (4, 255)]", select::<<F30 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U15, Array<t::U4, t::U255, End>>>>, forbidden::<F30>, &[(3, 15), (4, 255)], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F5 within [(6, 255)]", select::<<F5 as IForbiddenValues>::SelectFrom<Array<t::U6, t::U255, End>>>, forbidden::<F5>, &[(6, 255)], &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F14 within [(3, 255)]", select::<<F14 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, End>>>, forbidden::<F14>, &[(3, 255)], &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F17 within [(0, 255), (1, 15), (4, 15), (5, 255), (6, 255), (9, 255)]", select::<<F17 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U15, Array<t::U4, t::U15, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>>>>>, forbidden::<F17>, &[(0, 255), (1, 15), (4, 15), (5, 255), (6, 255), (9, 255)], &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F38 within [(0, 255), (1, 255), (3, 254), (4, 127), (7, 255), (9, 255), (10, 255)]", select::<<F38 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U3, t::U254, Array<t::U4, t::U127, Array<t::U7, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>, forbidden::<F38>, &[(0, 255), (1, 255), (3, 254), (4, 127), (7, 255), (9, 255), (10, 255)], &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F9 within [(4, 255), (8, 255), (10, 255)]", select::<<F9 as IForbiddenValues>::SelectFrom<Array<t::U4, t::U255, Array<t::U8, t::U255, Array<t::U10, t::U255, End>>>>>, forbidden::<F9>, &[(4, 255), (8, 255), (10, 255)], &[&[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F35 within [(0, 255), (1, 255), (5, 255), (8, 255)]", select::<<F35 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, End>>>>>>, forbidden::<F35>, &[(0, 255), (1, 255), (5, 255), (8, 255)], &[&[(5, 3, 254)]]),
    ("F39 within [(0, 255), (3, 127), (5, 255), (6, 127), (8, 255), (9, 255)]", select::<<F39 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U127, Array<t::U5, t::U255, Array<t::U6, t::U127, Array<t::U8, t::U255, Array<t::U9, t::U255, End>>>>>>>>, forbidden::<F39>, &[(0, 255), (3, 127), (5, 255), (6, 127), (8, 255), (9, 255)], &[&[(6, 0, 0)]]),
    ("F19 within [(1, 255), (2, 255), (3, 255)]", select::<<F19 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, End>>>>>, forbidden::<F19>, &[(1, 255), (2, 255), (3, 255)], &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F38 within [(0, 255), (2, 255), (6, 15), (7, 255), (9, 255), (10, 255)]", select::<<F38 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U15, Array<t::U7, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F38>, &[(0, 255), (2, 255), (6, 15), (7, 255), (9, 255), (10, 255)], &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F19 within [(1, 255), (3, 255), (4, 255), (5, 255), (7, 255)]", select::<<F19 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, End>>>>>>>, forbidden::<F19>, &[(1, 255), (3, 255), (4, 255), (5, 255), (7, 255)], &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F32 within [(9, 255)]", select::<<F32 as IForbiddenValues>::SelectFrom<Array<t::U9, t::U255, End>>>, forbidden::<F32>, &[(9, 255)], &[&[(9, 1, 254)], &[(7, 1, 101)]]),
    ("F30 within []", select::<<F30 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F30>, &[], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F30 within [(1, 255), (3, 255), (4, 127)]", select::<<F30 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U127, End>>>>>, forbidden::<F30>, &[(1, 255), (3, 255), (4, 127)], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F19 within [(2, 255), (3, 255), (8, 255)]", select::<<F19 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U8, t::U255, End>>>>>, forbidden::<F19>, &[(2, 255), (3, 255), (8, 255)], &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F3 within [(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (9, 255)]", select::<<F3 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>>>>>>>, forbidden::<F3>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (9, 255)], &[&[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F25 within [(4, 127), (5, 15), (6, 255), (7, 15)]", select::<<F25 as IForbiddenValues>::SelectFrom<Array<t::U4, t::U127, Array<t::U5, t::U15, Array<t::U6, t::U255, Array<t::U7, t::U15, End>>>>>>, forbidden::<F25>, &[(4, 127), (5, 15), (6, 255), (7, 15)], &[&[(6, 254, 255)]]),
    ("F1 within [(0, 255), (1, 255), (2, 255), (3, 255), (6, 255)]", select::<<F1 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U6, t::U255, End>>>>>>>, forbidden::<F1>, &[(0, 255), (1, 255), (2, 255), (3, 255), (6, 255)], &[&[(0, 2, 255)]]),
    ("F11 within [(3, 255)]", select::<<F11 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, End>>>, forbidden::<F11>, &[(3, 255)], &[&[(3, 127, 127)]]),
    ("F36 within [(3, 127), (7, 255)]", select::<<F36 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U127, Array<t::U7, t::U255, End>>>>, forbidden::<F36>, &[(3, 127), (7, 255)], &[&[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)]]),
    ("F17 within []", select::<<F17 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F17>, &[], &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F26 within [(0, 255), (2, 255)]", select::<<F26 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, End>>>>, forbidden::<F26>, &[(0, 255), (2, 255)], &[&[(0, 2, 2), (2, 255, 255)]]),
    ("F20 within []", select::<<F20 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F20>, &[], &[&[(6, 2, 2)]]),
    ("F3 within [(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (10, 255)]", select::<<F3 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U10, t::U255, End>>>>>>>>>>>, forbidden::<F3>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (10, 255)], &[&[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F17 within [(0, 255), (3, 255), (6, 255)]", select::<<F17 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U255, Array<t::U6, t::U255, End>>>>>, forbidden::<F17>, &[(0, 255), (3, 255), (6, 255)], &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F33 within [(3, 255), (4, 255), (6, 127), (7, 255), (8, 255), (9, 255), (10, 255)]", select::<<F33 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U6, t::U127, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>, forbidden::<F33>, &[(3, 255), (4, 255), (6, 127), (7, 255), (8, 255), (9, 255), (10, 255)], &[&[(3, 0, 0), (4, 127, 127)]]),
    ("F37 within [(2, 255), (3, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, End>>>>, forbidden::<F37>, &[(2, 255), (3, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F25 within [(5, 255), (6, 255), (7, 255)]", select::<<F25 as IForbiddenValues>::SelectFrom<Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, End>>>>>, forbidden::<F25>, &[(5, 255), (6, 255), (7, 255)], &[&[(6, 254, 255)]]),
    ("F37 within [(3, 255), (4, 255), (7, 255), (10, 127)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U7, t::U255, Array<t::U10, t::U127, End>>>>>>, forbidden::<F37>, &[(3, 255), (4, 255), (7, 255), (10, 127)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F37 within [(2, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F37>, &[(2, 255), (6, 255), (7, 255), (8, 255), (9, 255), (10, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F8 within [(0, 255)]", select::<<F8 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, End>>>, forbidden::<F8>, &[(0, 255)], &[&[(0, 0, 1)]]),
    ("F24 within [(1, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, End>>>, forbidden::<F24>, &[(1, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F20 within [(0, 255), (2, 255), (6, 254)]", select::<<F20 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U254, End>>>>>, forbidden::<F20>, &[(0, 255), (2, 255), (6, 254)], &[&[(6, 2, 2)]]),
    ("F0 within [(2, 255), (3, 255), (5, 15), (7, 255), (8, 255)]", select::<<F0 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U5, t::U15, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>>>, forbidden::<F0>, &[(2, 255), (3, 255), (5, 15), (7, 255), (8, 255)], &[]),
    ("F37 within [(2, 255), (5, 255), (6, 255), (7, 255), (8, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>>>, forbidden::<F37>, &[(2, 255), (5, 255), (6, 255), (7, 255), (8, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F9 within [(3, 255), (4, 255)]", select::<<F9 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U255, End>>>>, forbidden::<F9>, &[(3, 255), (4, 255)], &[&[(1, 100, 101)], &[(8, 254, 255)], &[(1, 1, 1), (2, 128, 128), (3, 0, 0)]]),
    ("F10 within [(0, 255), (2, 255), (4, 255), (5, 255), (7, 255)]", select::<<F10 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, End>>>>>>>, forbidden::<F10>, &[(0, 255), (2, 255), (4, 255), (5, 255), (7, 255)], &[&[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F27 within [(3, 255), (6, 255), (9, 255)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>>, forbidden::<F27>, &[(3, 255), (6, 255), (9, 255)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F37 within [(3, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, End>>>, forbidden::<F37>, &[(3, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F30 within [(1, 15)]", select::<<F30 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U15, End>>>, forbidden::<F30>, &[(1, 15)], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F5 within [(0, 15), (2, 255), (4, 255), (5, 255), (7, 255), (8, 255), (9, 255), (10, 255)]", select::<<F5 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U15, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>>, forbidden::<F5>, &[(0, 15), (2, 255), (4, 255), (5, 255), (7, 255), (8, 255), (9, 255), (10, 255)], &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F14 within [(0, 255), (1, 255), (5, 255), (7, 255), (8, 255)]", select::<<F14 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>>>, forbidden::<F14>, &[(0, 255), (1, 255), (5, 255), (7, 255), (8, 255)], &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F28 within [(6, 255), (9, 255)]", select::<<F28 as IForbiddenValues>::SelectFrom<Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>, forbidden::<F28>, &[(6, 255), (9, 255)], &[&[(4, 0, 0), (5, 0, 0), (7, 1, 1)], &[(0, 2, 2), (3, 255, 255)], &[(6, 1, 3)]]),
    ("F34 within [(1, 255), (4, 255), (5, 255), (8, 255)]", select::<<F34 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, End>>>>>>, forbidden::<F34>, &[(1, 255), (4, 255), (5, 255), (8, 255)], &[&[(3, 3, 5)], &[(1, 0, 0)]]),
    ("F14 within [(2, 255), (6, 255), (7, 255), (10, 255)]", select::<<F14 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U10, t::U255, End>>>>>>, forbidden::<F14>, &[(2, 255), (6, 255), (7, 255), (10, 255)], &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F19 within []", select::<<F19 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F19>, &[], &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F7 within [(0, 255), (2, 255), (6, 255), (7, 255), (8, 255)]", select::<<F7 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>>>, forbidden::<F7>, &[(0, 255), (2, 255), (6, 255), (7, 255), (8, 255)], &[&[(0, 0, 101)], &[(0, 254, 255)], &[(3, 100, 254)]]),
    ("F22 within [(3, 255), (4, 255), (9, 127)]", select::<<F22 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U9, t::U127, End>>>>>, forbidden::<F22>, &[(3, 255), (4, 255), (9, 127)], &[&[(3, 1, 101)], &[(3, 100, 254)]]),
    ("F11 within [(2, 255)]", select::<<F11 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, End>>>, forbidden::<F11>, &[(2, 255)], &[&[(3, 127, 127)]]),
    ("F14 within [(4, 255), (7, 255)]", select::<<F14 as IForbiddenValues>::SelectFrom<Array<t::U4, t::U255, Array<t::U7, t::U255, End>>>>, forbidden::<F14>, &[(4, 255), (7, 255)], &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F33 within [(1, 255), (4, 127), (7, 255), (8, 255)]", select::<<F33 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U127, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>>, forbidden::<F33>, &[(1, 255), (4, 127), (7, 255), (8, 255)], &[&[(3, 0, 0), (4, 127, 127)]]),
    ("F23 within [(0, 255), (1, 15), (3, 255), (7, 255)]", select::<<F23 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U15, Array<t::U3, t::U255, Array<t::U7, t::U255, End>>>>>>, forbidden::<F23>, &[(0, 255), (1, 15), (3, 255), (7, 255)], &[&[(7, 0, 101)]]),
    ("F8 within [(0, 255), (3, 255), (4, 255), (7, 255), (8, 254), (10, 255)]", select::<<F8 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U254, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F8>, &[(0, 255), (3, 255), (4, 255), (7, 255), (8, 254), (10, 255)], &[&[(0, 0, 1)]]),
    ("F1 within [(0, 255)]", select::<<F1 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, End>>>, forbidden::<F1>, &[(0, 255)], &[&[(0, 2, 255)]]),
    ("F27 within [(1, 255), (2, 255), (4, 255), (5, 255), (6, 255), (8, 15), (9, 255), (10, 255)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U8, t::U15, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>>, forbidden::<F27>, &[(1, 255), (2, 255), (4, 255), (5, 255), (6, 255), (8, 15), (9, 255), (10, 255)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F37 within [(1, 255), (3, 255), (7, 255), (8, 255), (10, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F37>, &[(1, 255), (3, 255), (7, 255), (8, 255), (10, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F4 within [(0, 255), (2, 255), (5, 255)]", select::<<F4 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U5, t::U255, End>>>>>, forbidden::<F4>, &[(0, 255), (2, 255), (5, 255)], &[&[(0, 0, 0), (1, 0, 0)]]),
    ("F15 within [(0, 255), (1, 255), (5, 255), (6, 255)]", select::<<F15 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, End>>>>>>, forbidden::<F15>, &[(0, 255), (1, 255), (5, 255), (6, 255)], &[&[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)]]),
    ("F5 within [(1, 255), (3, 255), (8, 255), (9, 254), (10, 255)]", select::<<F5 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U254, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F5>, &[(1, 255), (3, 255), (8, 255), (9, 254), (10, 255)], &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F37 within [(0, 255), (1, 255), (4, 255), (5, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, End>>>>>>, forbidden::<F37>, &[(0, 255), (1, 255), (4, 255), (5, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F12 within [(1, 255), (2, 255), (3, 255), (4, 255)]", select::<<F12 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, End>>>>>>, forbidden::<F12>, &[(1, 255), (2, 255), (3, 255), (4, 255)], &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)]]),
    ("F10 within [(0, 255), (2, 255), (6, 255), (7, 255)]", select::<<F10 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, End>>>>>>, forbidden::<F10>, &[(0, 255), (2, 255), (6, 255), (7, 255)], &[&[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F25 within [(0, 255), (7, 255)]", select::<<F25 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U7, t::U255, End>>>>, forbidden::<F25>, &[(0, 255), (7, 255)], &[&[(6, 254, 255)]]),
    ("F33 within [(3, 255), (4, 255), (8, 255), (9, 255), (10, 255)]", select::<<F33 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F33>, &[(3, 255), (4, 255), (8, 255), (9, 255), (10, 255)], &[&[(3, 0, 0), (4, 127, 127)]]),
    ("F13 within [(2, 255), (4, 127), (6, 255), (9, 255), (10, 255)]", select::<<F13 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U4, t::U127, Array<t::U6, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F13>, &[(2, 255), (4, 127), (6, 255), (9, 255), (10, 255)], &[&[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)]]),
    ("F27 within [(0, 255), (1, 255), (2, 255), (5, 255), (8, 254)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U254, End>>>>>>>, forbidden::<F27>, &[(0, 255), (1, 255), (2, 255), (5, 255), (8, 254)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F27 within [(0, 255), (2, 254), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U254, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, End>>>>>>>>>, forbidden::<F27>, &[(0, 255), (2, 254), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F19 within [(0, 255), (4, 255), (5, 255), (7, 255)]", select::<<F19 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, End>>>>>>, forbidden::<F19>, &[(0, 255), (4, 255), (5, 255), (7, 255)], &[&[(3, 100, 255)], &[(5, 1, 1), (7, 127, 127)], &[(0, 100, 101)]]),
    ("F15 within [(0, 255), (5, 255), (9, 255), (10, 255)]", select::<<F15 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U5, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>, forbidden::<F15>, &[(0, 255), (5, 255), (9, 255), (10, 255)], &[&[(10, 1, 1)], &[(0, 255, 255), (1, 0, 0), (3, 1, 1)]]),
    ("F37 within [(0, 255), (7, 255), (8, 15)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U15, End>>>>>, forbidden::<F37>, &[(0, 255), (7, 255), (8, 15)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F24 within [(1, 255), (2, 255), (4, 255), (5, 255), (6, 255), (9, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>>>>>, forbidden::<F24>, &[(1, 255), (2, 255), (4, 255), (5, 255), (6, 255), (9, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F32 within [(0, 255), (3, 255), (5, 255), (6, 15), (9, 255)]", select::<<F32 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U15, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F32>, &[(0, 255), (3, 255), (5, 255), (6, 15), (9, 255)], &[&[(9, 1, 254)], &[(7, 1, 101)]]),
    ("F39 within [(1, 255), (2, 255), (4, 255), (6, 255), (8, 127), (9, 255)]", select::<<F39 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U6, t::U255, Array<t::U8, t::U127, Array<t::U9, t::U255, End>>>>>>>>, forbidden::<F39>, &[(1, 255), (2, 255), (4, 255), (6, 255), (8, 127), (9, 255)], &[&[(6, 0, 0)]]),
    ("F24 within [(0, 255), (2, 255), (6, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U255, End>>>>>, forbidden::<F24>, &[(0, 255), (2, 255), (6, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F24 within [(1, 255), (2, 255), (5, 254), (9, 255), (10, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U5, t::U254, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F24>, &[(1, 255), (2, 255), (5, 254), (9, 255), (10, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F30 within [(1, 255)]", select::<<F30 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, End>>>, forbidden::<F30>, &[(1, 255)], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F32 within [(5, 255), (7, 255), (8, 255)]", select::<<F32 as IForbiddenValues>::SelectFrom<Array<t::U5, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>, forbidden::<F32>, &[(5, 255), (7, 255), (8, 255)], &[&[(9, 1, 254)], &[(7, 1, 101)]]),
    ("F32 within [(2, 255), (4, 127), (5, 255), (6, 255), (8, 255), (9, 255)]", select::<<F32 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U4, t::U127, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, End>>>>>>>>, forbidden::<F32>, &[(2, 255), (4, 127), (5, 255), (6, 255), (8, 255), (9, 255)], &[&[(9, 1, 254)], &[(7, 1, 101)]]),
    ("F21 within [(0, 254), (2, 15), (3, 255)]", select::<<F21 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U254, Array<t::U2, t::U15, Array<t::U3, t::U255, End>>>>>, forbidden::<F21>, &[(0, 254), (2, 15), (3, 255)], &[&[(6, 2, 2)], &[(2, 1, 254)]]),
    ("F17 within [(0, 255), (4, 255)]", select::<<F17 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U4, t::U255, End>>>>, forbidden::<F17>, &[(0, 255), (4, 255)], &[&[(3, 127, 127)], &[(4, 1, 101)]]),
    ("F11 within [(1, 255), (3, 255), (10, 255)]", select::<<F11 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U10, t::U255, End>>>>>, forbidden::<F11>, &[(1, 255), (3, 255), (10, 255)], &[&[(3, 127, 127)]]),
    ("F3 within [(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (9, 255)]", select::<<F3 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U9, t::U255, End>>>>>>>>>>>, forbidden::<F3>, &[(0, 255), (1, 255), (2, 255), (3, 255), (4, 255), (5, 255), (6, 255), (7, 255), (9, 255)], &[&[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F29 within [(1, 255)]", select::<<F29 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, End>>>, forbidden::<F29>, &[(1, 255)], &[&[(1, 254, 255)]]),
    ("F27 within [(1, 255), (2, 15)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U15, End>>>>, forbidden::<F27>, &[(1, 255), (2, 15)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F30 within [(3, 127), (4, 255), (5, 255), (8, 255)]", select::<<F30 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U127, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, End>>>>>>, forbidden::<F30>, &[(3, 127), (4, 255), (5, 255), (8, 255)], &[&[(1, 0, 0), (3, 1, 1), (4, 0, 0)], &[(3, 127, 127), (5, 0, 0), (7, 1, 1)], &[(1, 127, 127)]]),
    ("F26 within []", select::<<F26 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F26>, &[], &[&[(0, 2, 2), (2, 255, 255)]]),
    ("F12 within [(3, 254)]", select::<<F12 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U254, End>>>, forbidden::<F12>, &[(3, 254)], &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)]]),
    ("F13 within [(2, 255), (5, 255)]", select::<<F13 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U5, t::U255, End>>>>, forbidden::<F13>, &[(2, 255), (5, 255)], &[&[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)]]),
    ("F16 within [(6, 255), (7, 255), (8, 255)]", select::<<F16 as IForbiddenValues>::SelectFrom<Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, End>>>>>, forbidden::<F16>, &[(6, 255), (7, 255), (8, 255)], &[&[(2, 2, 2), (3, 128, 128)], &[(6, 2, 2), (7, 2, 2), (8, 1, 1)]]),
    ("F4 within [(0, 255), (1, 255), (3, 255), (6, 255), (7, 15), (8, 255)]", select::<<F4 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U15, Array<t::U8, t::U255, End>>>>>>>>, forbidden::<F4>, &[(0, 255), (1, 255), (3, 255), (6, 255), (7, 15), (8, 255)], &[&[(0, 0, 0), (1, 0, 0)]]),
    ("F11 within [(3, 255), (5, 255), (8, 255)]", select::<<F11 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, End>>>>>, forbidden::<F11>, &[(3, 255), (5, 255), (8, 255)], &[&[(3, 127, 127)]]),
    ("F20 within [(3, 255), (4, 127), (5, 255), (6, 255), (7, 255), (10, 255)]", select::<<F20 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U127, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F20>, &[(3, 255), (4, 127), (5, 255), (6, 255), (7, 255), (10, 255)], &[&[(6, 2, 2)]]),
    ("F27 within [(1, 255), (2, 255), (3, 255), (4, 255), (5, 127), (6, 255), (8, 255)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U127, Array<t::U6, t::U255, Array<t::U8, t::U255, End>>>>>>>>>, forbidden::<F27>, &[(1, 255), (2, 255), (3, 255), (4, 255), (5, 127), (6, 255), (8, 255)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F6 within [(0, 15), (1, 255), (2, 255), (6, 255), (8, 255), (10, 254)]", select::<<F6 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U15, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U255, Array<t::U8, t::U255, Array<t::U10, t::U254, End>>>>>>>>, forbidden::<F6>, &[(0, 15), (1, 255), (2, 255), (6, 255), (8, 255), (10, 254)], &[&[(0, 254, 255)], &[(0, 100, 101)], &[(0, 2, 2), (1, 2, 2), (3, 255, 255)]]),
    ("F39 within [(1, 255), (2, 255), (5, 255), (6, 255), (10, 255)]", select::<<F39 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F39>, &[(1, 255), (2, 255), (5, 255), (6, 255), (10, 255)], &[&[(6, 0, 0)]]),
    ("F34 within [(1, 255), (4, 255), (5, 255), (8, 255), (9, 255), (10, 255)]", select::<<F34 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F34>, &[(1, 255), (4, 255), (5, 255), (8, 255), (9, 255), (10, 255)], &[&[(3, 3, 5)], &[(1, 0, 0)]]),
    ("F7 within [(1, 255), (3, 255)]", select::<<F7 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, End>>>>, forbidden::<F7>, &[(1, 255), (3, 255)], &[&[(0, 0, 101)], &[(0, 254, 255)], &[(3, 100, 254)]]),
    ("F32 within [(6, 255), (7, 255)]", select::<<F32 as IForbiddenValues>::SelectFrom<Array<t::U6, t::U255, Array<t::U7, t::U255, End>>>>, forbidden::<F32>, &[(6, 255), (7, 255)], &[&[(9, 1, 254)], &[(7, 1, 101)]]),
    ("F21 within [(2, 255), (3, 255), (4, 255), (5, 255), (8, 254), (10, 255)]", select::<<F21 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U254, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F21>, &[(2, 255), (3, 255), (4, 255), (5, 255), (8, 254), (10, 255)], &[&[(6, 2, 2)], &[(2, 1, 254)]]),
    ("F3 within [(4, 255), (6, 255), (7, 255), (8, 255), (10, 255)]", select::<<F3 as IForbiddenValues>::SelectFrom<Array<t::U4, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F3>, &[(4, 255), (6, 255), (7, 255), (8, 255), (10, 255)], &[&[(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)]]),
    ("F25 within [(1, 255), (2, 255), (4, 255)]", select::<<F25 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U255, End>>>>>, forbidden::<F25>, &[(1, 255), (2, 255), (4, 255)], &[&[(6, 254, 255)]]),
    ("F39 within [(1, 255), (6, 255), (10, 255)]", select::<<F39 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U6, t::U255, Array<t::U10, t::U255, End>>>>>, forbidden::<F39>, &[(1, 255), (6, 255), (10, 255)], &[&[(6, 0, 0)]]),
    ("F28 within [(0, 255), (2, 255), (3, 127), (4, 255), (9, 255)]", select::<<F28 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U3, t::U127, Array<t::U4, t::U255, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F28>, &[(0, 255), (2, 255), (3, 127), (4, 255), (9, 255)], &[&[(4, 0, 0), (5, 0, 0), (7, 1, 1)], &[(0, 2, 2), (3, 255, 255)], &[(6, 1, 3)]]),
    ("F6 within [(1, 255), (6, 255), (8, 255)]", select::<<F6 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U6, t::U255, Array<t::U8, t::U255, End>>>>>, forbidden::<F6>, &[(1, 255), (6, 255), (8, 255)], &[&[(0, 254, 255)], &[(0, 100, 101)], &[(0, 2, 2), (1, 2, 2), (3, 255, 255)]]),
    ("F8 within []", select::<<F8 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F8>, &[], &[&[(0, 0, 1)]]),
    ("F28 within [(6, 254), (7, 255), (8, 255), (9, 255)]", select::<<F28 as IForbiddenValues>::SelectFrom<Array<t::U6, t::U254, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, End>>>>>>, forbidden::<F28>, &[(6, 254), (7, 255), (8, 255), (9, 255)], &[&[(4, 0, 0), (5, 0, 0), (7, 1, 1)], &[(0, 2, 2), (3, 255, 255)], &[(6, 1, 3)]]),
    ("F14 within [(2, 255), (8, 255), (9, 255), (10, 255)]", select::<<F14 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>, forbidden::<F14>, &[(2, 255), (8, 255), (9, 255), (10, 255)], &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F4 within [(0, 255), (1, 255), (2, 255), (4, 255), (5, 255), (6, 255), (9, 255)]", select::<<F4 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>>>>>>, forbidden::<F4>, &[(0, 255), (1, 255), (2, 255), (4, 255), (5, 255), (6, 255), (9, 255)], &[&[(0, 0, 0), (1, 0, 0)]]),
    ("F12 within []", select::<<F12 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F12>, &[], &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)]]),
    ("F35 within [(5, 255), (10, 255)]", select::<<F35 as IForbiddenValues>::SelectFrom<Array<t::U5, t::U255, Array<t::U10, t::U255, End>>>>, forbidden::<F35>, &[(5, 255), (10, 255)], &[&[(5, 3, 254)]]),
    ("F20 within [(0, 255), (8, 255)]", select::<<F20 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U8, t::U255, End>>>>, forbidden::<F20>, &[(0, 255), (8, 255)], &[&[(6, 2, 2)]]),
    ("F4 within [(3, 255), (4, 127), (7, 255)]", select::<<F4 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U4, t::U127, Array<t::U7, t::U255, End>>>>>, forbidden::<F4>, &[(3, 255), (4, 127), (7, 255)], &[&[(0, 0, 0), (1, 0, 0)]]),
    ("F5 within [(1, 255), (4, 255), (10, 255)]", select::<<F5 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U10, t::U255, End>>>>>, forbidden::<F5>, &[(1, 255), (4, 255), (10, 255)], &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F16 within [(1, 255), (6, 255), (7, 255), (8, 127), (9, 255)]", select::<<F16 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U127, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F16>, &[(1, 255), (6, 255), (7, 255), (8, 127), (9, 255)], &[&[(2, 2, 2), (3, 128, 128)], &[(6, 2, 2), (7, 2, 2), (8, 1, 1)]]),
    ("F5 within [(0, 255), (6, 127), (8, 255), (9, 255), (10, 255)]", select::<<F5 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U6, t::U127, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F5>, &[(0, 255), (6, 127), (8, 255), (9, 255), (10, 255)], &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F7 within [(0, 254), (3, 255), (9, 255), (10, 255)]", select::<<F7 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U254, Array<t::U3, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>, forbidden::<F7>, &[(0, 254), (3, 255), (9, 255), (10, 255)], &[&[(0, 0, 101)], &[(0, 254, 255)], &[(3, 100, 254)]]),
    ("F1 within [(2, 255), (3, 255), (5, 255), (7, 255), (9, 255)]", select::<<F1 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F1>, &[(2, 255), (3, 255), (5, 255), (7, 255), (9, 255)], &[&[(0, 2, 255)]]),
    ("F8 within []", select::<<F8 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F8>, &[], &[&[(0, 0, 1)]]),
    ("F5 within [(0, 255), (3, 127), (5, 255), (8, 255), (9, 255), (10, 255)]", select::<<F5 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U127, Array<t::U5, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F5>, &[(0, 255), (3, 127), (5, 255), (8, 255), (9, 255), (10, 255)], &[&[(8, 2, 2), (9, 0, 0), (10, 127, 127)]]),
    ("F22 within [(3, 255), (6, 255)]", select::<<F22 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U6, t::U255, End>>>>, forbidden::<F22>, &[(3, 255), (6, 255)], &[&[(3, 1, 101)], &[(3, 100, 254)]]),
    ("F35 within [(5, 255)]", select::<<F35 as IForbiddenValues>::SelectFrom<Array<t::U5, t::U255, End>>>, forbidden::<F35>, &[(5, 255)], &[&[(5, 3, 254)]]),
    ("F11 within [(7, 255)]", select::<<F11 as IForbiddenValues>::SelectFrom<Array<t::U7, t::U255, End>>>, forbidden::<F11>, &[(7, 255)], &[&[(3, 127, 127)]]),
    ("F29 within [(1, 255), (3, 255), (7, 255), (9, 255)]", select::<<F29 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U7, t::U255, Array<t::U9, t::U255, End>>>>>>, forbidden::<F29>, &[(1, 255), (3, 255), (7, 255), (9, 255)], &[&[(1, 254, 255)]]),
    ("F7 within [(2, 255), (3, 255), (6, 255), (7, 255), (10, 255)]", select::<<F7 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U6, t::U255, Array<t::U7, t::U255, Array<t::U10, t::U255, End>>>>>>>, forbidden::<F7>, &[(2, 255), (3, 255), (6, 255), (7, 255), (10, 255)], &[&[(0, 0, 101)], &[(0, 254, 255)], &[(3, 100, 254)]]),
    ("F21 within [(8, 255), (9, 255), (10, 255)]", select::<<F21 as IForbiddenValues>::SelectFrom<Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>, forbidden::<F21>, &[(8, 255), (9, 255), (10, 255)], &[&[(6, 2, 2)], &[(2, 1, 254)]]),
    ("F24 within [(0, 255), (3, 255), (4, 15), (6, 255), (9, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U15, Array<t::U6, t::U255, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F24>, &[(0, 255), (3, 255), (4, 15), (6, 255), (9, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F2 within [(2, 255), (5, 255), (6, 15), (8, 255), (9, 127)]", select::<<F2 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U15, Array<t::U8, t::U255, Array<t::U9, t::U127, End>>>>>>>, forbidden::<F2>, &[(2, 255), (5, 255), (6, 15), (8, 255), (9, 127)], &[&[(0, 0, 0)]]),
    ("F26 within [(0, 255), (2, 255)]", select::<<F26 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, End>>>>, forbidden::<F26>, &[(0, 255), (2, 255)], &[&[(0, 2, 2), (2, 255, 255)]]),
    ("F12 within [(3, 255), (5, 255), (6, 15), (8, 255), (10, 127)]", select::<<F12 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U5, t::U255, Array<t::U6, t::U15, Array<t::U8, t::U255, Array<t::U10, t::U127, End>>>>>>>, forbidden::<F12>, &[(3, 255), (5, 255), (6, 15), (8, 255), (10, 127)], &[&[(6, 1, 101)], &[(0, 1, 1), (1, 128, 128), (2, 255, 255)], &[(3, 1, 255)]]),
    ("F0 within [(1, 255), (4, 255), (5, 255), (7, 255), (9, 255), (10, 255)]", select::<<F0 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U7, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F0>, &[(1, 255), (4, 255), (5, 255), (7, 255), (9, 255), (10, 255)], &[]),
    ("F10 within [(0, 255), (2, 255), (4, 254), (5, 255)]", select::<<F10 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U254, Array<t::U5, t::U255, End>>>>>>, forbidden::<F10>, &[(0, 255), (2, 255), (4, 254), (5, 255)], &[&[(0, 127, 127), (4, 2, 2)], &[(4, 255, 255), (7, 255, 255)], &[(0, 128, 128), (2, 128, 128)]]),
    ("F37 within [(2, 255), (7, 255)]", select::<<F37 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U7, t::U255, End>>>>, forbidden::<F37>, &[(2, 255), (7, 255)], &[&[(6, 1, 1), (7, 0, 0), (8, 1, 1)], &[(3, 254, 255)]]),
    ("F7 within [(2, 255), (3, 255), (5, 255), (8, 255), (9, 254), (10, 255)]", select::<<F7 as IForbiddenValues>::SelectFrom<Array<t::U2, t::U255, Array<t::U3, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U254, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F7>, &[(2, 255), (3, 255), (5, 255), (8, 255), (9, 254), (10, 255)], &[&[(0, 0, 101)], &[(0, 254, 255)], &[(3, 100, 254)]]),
    ("F14 within [(1, 255), (3, 255), (4, 255), (6, 255), (9, 255), (10, 255)]", select::<<F14 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U6, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>, forbidden::<F14>, &[(1, 255), (3, 255), (4, 255), (6, 255), (9, 255), (10, 255)], &[&[(3, 2, 2)], &[(0, 1, 3)], &[(10, 0, 0)]]),
    ("F1 within [(0, 255), (3, 255), (4, 255), (5, 255), (8, 255), (9, 15)]", select::<<F1 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U3, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U15, End>>>>>>>>, forbidden::<F1>, &[(0, 255), (3, 255), (4, 255), (5, 255), (8, 255), (9, 15)], &[&[(0, 2, 255)]]),
    ("F38 within [(0, 255), (1, 255), (4, 255), (5, 254), (8, 255), (9, 255), (10, 255)]", select::<<F38 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U1, t::U255, Array<t::U4, t::U255, Array<t::U5, t::U254, Array<t::U8, t::U255, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>, forbidden::<F38>, &[(0, 255), (1, 255), (4, 255), (5, 254), (8, 255), (9, 255), (10, 255)], &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F36 within [(0, 255), (4, 255), (7, 255), (8, 255), (9, 255)]", select::<<F36 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U4, t::U255, Array<t::U7, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F36>, &[(0, 255), (4, 255), (7, 255), (8, 255), (9, 255)], &[&[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)]]),
    ("F31 within [(10, 255)]", select::<<F31 as IForbiddenValues>::SelectFrom<Array<t::U10, t::U255, End>>>, forbidden::<F31>, &[(10, 255)], &[&[(5, 128, 128)], &[(3, 1, 1)], &[(3, 100, 254)]]),
    ("F38 within [(1, 255), (2, 255), (4, 15), (5, 255), (7, 127), (9, 255), (10, 255)]", select::<<F38 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U4, t::U15, Array<t::U5, t::U255, Array<t::U7, t::U127, Array<t::U9, t::U255, Array<t::U10, t::U255, End>>>>>>>>>, forbidden::<F38>, &[(1, 255), (2, 255), (4, 15), (5, 255), (7, 127), (9, 255), (10, 255)], &[&[(7, 0, 0), (9, 128, 128), (10, 1, 1)]]),
    ("F1 within [(1, 255), (5, 255)]", select::<<F1 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U5, t::U255, End>>>>, forbidden::<F1>, &[(1, 255), (5, 255)], &[&[(0, 2, 255)]]),
    ("F8 within [(0, 255), (2, 255), (6, 255), (8, 255), (9, 255)]", select::<<F8 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U2, t::U255, Array<t::U6, t::U255, Array<t::U8, t::U255, Array<t::U9, t::U255, End>>>>>>>, forbidden::<F8>, &[(0, 255), (2, 255), (6, 255), (8, 255), (9, 255)], &[&[(0, 0, 1)]]),
    ("F27 within [(1, 255), (2, 255), (8, 255)]", select::<<F27 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U255, Array<t::U2, t::U255, Array<t::U8, t::U255, End>>>>>, forbidden::<F27>, &[(1, 255), (2, 255), (8, 255)], &[&[(3, 0, 1)], &[(3, 128, 128), (5, 128, 128), (6, 0, 0)], &[(1, 0, 0), (2, 0, 0)]]),
    ("F1 within [(0, 255), (7, 255), (10, 255)]", select::<<F1 as IForbiddenValues>::SelectFrom<Array<t::U0, t::U255, Array<t::U7, t::U255, Array<t::U10, t::U255, End>>>>>, forbidden::<F1>, &[(0, 255), (7, 255), (10, 255)], &[&[(0, 2, 255)]]),
    ("F24 within [(5, 255), (9, 255)]", select::<<F24 as IForbiddenValues>::SelectFrom<Array<t::U5, t::U255, Array<t::U9, t::U255, End>>>>, forbidden::<F24>, &[(5, 255), (9, 255)], &[&[(9, 3, 5)], &[(3, 254, 255)], &[(8, 127, 127), (10, 128, 128)]]),
    ("F13 within []", select::<<F13 as IForbiddenValues>::SelectFrom<End>>, forbidden::<F13>, &[], &[&[(3, 0, 0), (5, 0, 0), (7, 127, 127)], &[(2, 0, 5)], &[(2, 254, 255)]]),
    ("F36 within [(3, 255), (5, 255), (8, 127), (10, 255)]", select::<<F36 as IForbiddenValues>::SelectFrom<Array<t::U3, t::U255, Array<t::U5, t::U255, Array<t::U8, t::U127, Array<t::U10, t::U255, End>>>>>>, forbidden::<F36>, &[(3, 255), (5, 255), (8, 127), (10, 255)], &[&[(7, 0, 0), (8, 0, 0)], &[(3, 254, 255)], &[(5, 3, 5)]]),
    ("F25 within [(6, 255)]", select::<<F25 as IForbiddenValues>::SelectFrom<Array<t::U6, t::U255, End>>>, forbidden::<F25>, &[(6, 255)], &[&[(6, 254, 255)]]),
    ("F29 within [(1, 15), (2, 255), (4, 255), (10, 255)]", select::<<F29 as IForbiddenValues>::SelectFrom<Array<t::U1, t::U15, Array<t::U2, t::U255, Array<t::U4, t::U255, Array<t::U10, t::U255, End>>>>>>, forbidden::<F29>, &[(1, 15), (2, 255), (4, 255), (10, 255)], &[&[(1, 254, 255)]]),
];
pub static EXPRESSIONS: &[(&str, fn() -> u128, u128)] = &[
    ("(t::U3 | t::U2) - t::U8", num::<tyeval!((t::U3 | t::U2) - t::U8)>, 5),
    ("(t::U16 == (t::U3 & (t::U1000 + t::U255))) ? t::U8 : t::U5", num::<tyeval!((t::U16 == (t::U3 & (t::U1000 + t::U255))) ? t::U8 : t::U5)>, 5),
    ("(t::U2 - t::U16) | (t::U255 + t::U100)", num::<tyeval!((t::U2 - t::U16) | (t::U255 + t::U100))>, 367),
    ("t::U21", num::<tyeval!(t::U21)>, 21),
    ("((t::U256 | t::U8) & ((!(t::U1000 == t::U100)) ? t::U0 : t::U7)) % t::U4", num::<tyeval!(((t::U256 | t::U8) & ((!(t::U1000 == t::U100)) ? t::U0 : t::U7)) % t::U4)>, 0),
    ("(!((t::U5 - t::U21) == (t::U5 - t::U21))) ? ((t::U64 == t::U0) ? t::U3 : t::U3) : (t::U1 | t::U2)", num::<tyeval!((!((t::U5 - t::U21) == (t::U5 - t::U21))) ? ((t::U64 == t::U0) ? t::U3 : t::U3) : (t::U1 | t::U2))>, 3),
    ("t::U2 + t::U64", num::<tyeval!(t::U2 + t::U64)>, 66),
    ("((t::U21 & t::U1) + (t::U0 & t::U100)) + (((t::U0 == t::U1000) ? t::U1000 : t::U0) % t::U128)", num::<tyeval!(((t::U21 & t::U1) + (t::U0 & t::U100)) + (((t::U0 == t::U1000) ? t::U1000 : t::U0) % t::U128))>, 1),
    ("t::U2 + t::U2", num::<tyeval!(t::U2 + t::U2)>, 4),
    ("((t::U100 - t::U3) | (t::U5 - t::U1)) - ((!((t::U0 & t::U3) == (t::U0 & t::U3))) ? (t::U0 % t::U4) : (t::U255 & t::U7))", num::<tyeval!(((t::U100 - t::U3) | (t::U5 - t::U1)) - ((!((t::U0 & t::U3) == (t::U0 & t::U3))) ? (t::U0 % t::U4) : (t::U255 & t::U7)))>, 94),
    ("t::U7 & t::U3", num::<tyeval!(t::U7 & t::U3)>, 3),
    ("((t::U16 % t::U1) == (t::U16 % t::U1)) ? (t::U16 % t::U4) : ((t::U5 == t::U5) ? t::U100 : t::U256)", num::<tyeval!(((t::U16 % t::U1) == (t::U16 % t::U1)) ? (t::U16 % t::U4) : ((t::U5 == t::U5) ? t::U100 : t::U256))>, 0),
    ("((t::U7 - t::U0) | (t::U16 % t::U4)) - ((t::U256 + t::U21) % t::U2)", num::<tyeval!(((t::U7 - t::U0) | (t::U16 % t::U4)) - ((t::U256 + t::U21) % t::U2))>, 6),
    ("(t::U1 == ((t::U256 == t::U256) ? t::U0 : t::U7)) ? t::U0 : t::U3", num::<tyeval!((t::U1 == ((t::U256 == t::U256) ? t::U0 : t::U7)) ? t::U0 : t::U3)>, 3),
    ("t::U100 % t::U128", num::<tyeval!(t::U100 % t::U128)>, 100),
    ("((t::U0 % t::U2) & (t::U5 & t::U0)) - t::U100", num::<tyeval!(((t::U0 % t::U2) & (t::U5 & t::U0)) - t::U100)>, 100),
    ("(((t::U7 == t::U3) ? t::U8 : t::U256) & ((!(t::U1 == t::U1)) ? t::U0 : t::U100)) & ((t::U5 - t::U256) & (t::U1000 | t::U16))", num::<tyeval!((((t::U7 == t::U3) ? t::U8 : t::U256) & ((!(t::U1 == t::U1)) ? t::U0 : t::U100)) & ((t::U5 - t::U256) & (t::U1000 | t::U16)))>, 0),
    ("t::U1 + (t::U2 | t::U255)", num::<tyeval!(t::U1 + (t::U2 | t::U255))>, 256),
    ("((t::U1 + t::U21) & t::U3) & ((t::U21 + t::U64) | ((t::U7 == t::U7) ? t::U2 : t::U8))", num::<tyeval!(((t::U1 + t::U21) & t::U3) & ((t::U21 + t::U64) | ((t::U7 == t::U7) ? t::U2 : t::U8)))>, 2),
    ("(((t::U1 == t::U1000) ? t::U1 : t::U0) | (t::U255 % t::U8)) - (((t::U21 + t::U3) == (t::U21 + t::U3)) ? (t::U21 % t::U128) : (t::U100 | t::U21))", num::<tyeval!((((t::U1 == t::U1000) ? t::U1 : t::U0) | (t::U255 % t::U8)) - (((t::U21 + t::U3) == (t::U21 + t::U3)) ? (t::U21 % t::U128) : (t::U100 | t::U21)))>, 14),
    ("t::U64 + t::U255", num::<tyeval!(t::U64 + t::U255)>, 319),
    ("t::U0 % t::U2", num::<tyeval!(t::U0 % t::U2)>, 0),
    ("(!(t::U1 == t::U1)) ? (t::U1000 - t::U5) : (t::U3 % t::U2)", num::<tyeval!((!(t::U1 == t::U1)) ? (t::U1000 - t::U5) : (t::U3 % t::U2))>, 1),
    ("(!(((!((t::U255 % t::U2) == (t::U255 % t::U2))) ? t::U1 : (t::U256 | t::U256)) == ((!((t::U255 % t::U2) == (t::U255 % t::U2))) ? t::U1 : (t::U256 | t::U256)))) ? ((t::U5 + t::U100) % t::U2) : ((t::U64 + t::U3) & t::U3)", num::<tyeval!((!(((!((t::U255 % t::U2) == (t::U255 % t::U2))) ? t::U1 : (t::U256 | t::U256)) == ((!((t::U255 % t::U2) == (t::U255 % t::U2))) ? t::U1 : (t::U256 | t::U256)))) ? ((t::U5 + t::U100) % t::U2) : ((t::U64 + t::U3) & t::U3))>, 3),
    ("t::U100", num::<tyeval!(t::U100)>, 100),
    ("t::U64 + (t::U255 + (t::U255 % t::U128))", num::<tyeval!(t::U64 + (t::U255 + (t::U255 % t::U128)))>, 446),
    ("t::U5", num::<tyeval!(t::U5)>, 5),
    ("(t::U3 - t::U7) | t::U2", num::<tyeval!((t::U3 - t::U7) | t::U2)>, 6),
    ("t::U0", num::<tyeval!(t::U0)>, 0),
    ("((t::U255 | t::U8) - (t::U0 % t::U16)) - ((t::U7 - t::U7) + ((t::U256 == t::U8) ? t::U256 : t::U16))", num::<tyeval!(((t::U255 | t::U8) - (t::U0 % t::U16)) - ((t::U7 - t::U7) + ((t::U256 == t::U8) ? t::U256 : t::U16)))>, 239),
    ("(t::U1000 | t::U5) % t::U8", num::<tyeval!((t::U1000 | t::U5) % t::U8)>, 5),
    ("(((t::U0 | t::U21) == (t::U7 + t::U8)) ? (t::U100 & t::U256) : t::U1) % t::U128", num::<tyeval!((((t::U0 | t::U21) == (t::U7 + t::U8)) ? (t::U100 & t::U256) : t::U1) % t::U128)>, 1),
    ("t::U1 | t::U21", num::<tyeval!(t::U1 | t::U21)>, 21),
    ("((t::U21 & t::U3) == (t::U1000 & t::U255)) ? (t::U1 + t::U16) : (t::U100 + t::U100)", num::<tyeval!(((t::U21 & t::U3) == (t::U1000 & t::U255)) ? (t::U1 + t::U16) : (t::U100 + t::U100))>, 200),
    ("(t::U100 - (t::U255 | t::U3)) | ((t::U7 == t::U7) ? (t::U64 & t::U1000) : ((t::U64 == t::U64) ? t::U7 : t::U7))", num::<tyeval!((t::U100 - (t::U255 | t::U3)) | ((t::U7 == t::U7) ? (t::U64 & t::U1000) : ((t::U64 == t::U64) ? t::U7 : t::U7)))>, 219),
    ("(!(t::U255 == t::U256)) ? t::U255 : t::U0", num::<tyeval!((!(t::U255 == t::U256)) ? t::U255 : t::U0)>, 255),
    ("t::U8 + ((t::U2 | t::U8) & (t::U7 % t::U128))", num::<tyeval!(t::U8 + ((t::U2 | t::U8) & (t::U7 % t::U128)))>, 10),
    ("(((t::U100 & t::U64) | (t::U21 + t::U2)) == ((t::U100 & t::U64) | (t::U21 + t::U2))) ? ((t::U5 % t::U4) - ((!(t::U3 == t::U3)) ? t::U16 : t::U21)) : ((t::U0 % t::U2) & (t::U16 & t::U3))", num::<tyeval!((((t::U100 & t::U64) | (t::U21 + t::U2)) == ((t::U100 & t::U64) | (t::U21 + t::U2))) ? ((t::U5 % t::U4) - ((!(t::U3 == t::U3)) ? t::U16 : t::U21)) : ((t::U0 % t::U2) & (t::U16 & t::U3)))>, 20),
    ("(t::U0 + t::U16) & t::U21", num::<tyeval!((t::U0 + t::U16) & t::U21)>, 16),
    ("(t::U8 & (t::U21 + t::U2)) % t::U16", num::<tyeval!((t::U8 & (t::U21 + t::U2)) % t::U16)>, 0),
    ("t::U3 | t::U1", num::<tyeval!(t::U3 | t::U1)>, 3),
    ("(t::U7 | t::U0) - (t::U2 & t::U64)", num::<tyeval!((t::U7 | t::U0) - (t::U2 & t::U64))>, 7),
    ("(((t::U100 == t::U0) ? t::U5 : t::U100) - (t::U2 | t::U0)) - ((t::U255 - t::U21) | (t::U7 % t::U8))", num::<tyeval!((((t::U100 == t::U0) ? t::U5 : t::U100) - (t::U2 | t::U0)) - ((t::U255 - t::U21) | (t::U7 % t::U8)))>, 141),
    ("(((t::U1000 & t::U100) & (t::U21 + t::U1000)) == ((t::U1000 & t::U100) & (t::U21 + t::U1000))) ? ((t::U5 % t::U8) | (t::U1000 % t::U2)) : ((t::U1000 + t::U100) % t::U2)", num::<tyeval!((((t::U1000 & t::U100) & (t::U21 + t::U1000)) == ((t::U1000 & t::U100) & (t::U21 + t::U1000))) ? ((t::U5 % t::U8) | (t::U1000 % t::U2)) : ((t::U1000 + t::U100) % t::U2))>, 5),
    ("((t::U16 | t::U100) % t::U16) | (((t::U5 == t::U5) ? t::U16 : t::U256) & (t::U100 | t::U1000))", num::<tyeval!(((t::U16 | t::U100) % t::U16) | (((t::U5 == t::U5) ? t::U16 : t::U256) & (t::U100 | t::U1000)))>, 4),
    ("(!(t::U100 == t::U100)) ? t::U1 : t::U64", num::<tyeval!((!(t::U100 == t::U100)) ? t::U1 : t::U64)>, 64),
    ("((t::U7 & t::U1) == (t::U7 & t::U1)) ? t::U0 : (t::U7 - t::U64)", num::<tyeval!(((t::U7 & t::U1) == (t::U7 & t::U1)) ? t::U0 : (t::U7 - t::U64))>, 0),
    ("t::U255 | t::U1000", num::<tyeval!(t::U255 | t::U1000)>, 1023),
    ("(t::U255 % t::U16) | (t::U0 + t::U255)", num::<tyeval!((t::U255 % t::U16) | (t::U0 + t::U255))>, 255),
    ("(!(((t::U5 % t::U1) + (t::U16 % t::U8)) == ((t::U21 + t::U1) - (t::U5 % t::U2)))) ? ((t::U8 - t::U255) | (t::U7 - t::U7)) : t::U2", num::<tyeval!((!(((t::U5 % t::U1) + (t::U16 % t::U8)) == ((t::U21 + t::U1) - (t::U5 % t::U2)))) ? ((t::U8 - t::U255) | (t::U7 - t::U7)) : t::U2)>, 247),
    ("t::U255 + (((t::U21 - t::U64) == t::U3) ? t::U1000 : (t::U100 + t::U5))", num::<tyeval!(t::U255 + (((t::U21 - t::U64) == t::U3) ? t::U1000 : (t::U100 + t::U5)))>, 360),
    ("(!((((t::U8 & t::U2) == ((!(t::U16 == t::U16)) ? t::U0 : t::U255)) ? ((t::U256 == t::U256) ? t::U21 : t::U256) : (t::U100 - t::U100)) == (((t::U5 == t::U5) ? t::U256 : t::U3) - t::U16))) ? (((t::U16 == t::U3) ? t::U2 : t::U7) + (t::U1000 | t::U0)) : ((((t::U0 == t::U3) ? t::U1000 : t::U5) == (t::U5 - t::U7)) ? (t::U255 % t::U1) : (t::U0 - t::U21))", num::<tyeval!((!((((t::U8 & t::U2) == ((!(t::U16 == t::U16)) ? t::U0 : t::U255)) ? ((t::U256 == t::U256) ? t::U21 : t::U256) : (t::U100 - t::U100)) == (((t::U5 == t::U5) ? t::U256 : t::U3) - t::U16))) ? (((t::U16 == t::U3) ? t::U2 : t::U7) + (t::U1000 | t::U0)) : ((((t::U0 == t::U3) ? t::U1000 : t::U5) == (t::U5 - t::U7)) ? (t::U255 % t::U1) : (t::U0 - t::U21)))>, 1007),
    ("t::U256 % t::U4", num::<tyeval!(t::U256 % t::U4)>, 0),
    ("t::U0 | t::U5", num::<tyeval!(t::U0 | t::U5)>, 5),
    ("(((!(t::U8 == t::U8)) ? t::U255 : t::U8) == ((!(t::U8 == t::U8)) ? t::U255 : t::U8)) ? (t::U1000 - t::U255) : (t::U3 + t::U5)", num::<tyeval!((((!(t::U8 == t::U8)) ? t::U255 : t::U8) == ((!(t::U8 == t::U8)) ? t::U255 : t::U8)) ? (t::U1000 - t::U255) : (t::U3 + t::U5))>, 745),
    ("((t::U2 + t::U2) & (t::U7 & t::U8)) - ((t::U16 + t::U21) % t::U8)", num::<tyeval!(((t::U2 + t::U2) & (t::U7 & t::U8)) - ((t::U16 + t::U21) % t::U8))>, 5),
    ("t::U1 + (t::U255 % t::U2)", num::<tyeval!(t::U1 + (t::U255 % t::U2))>, 2),
    ("(t::U7 - t::U1000) % t::U16", num::<tyeval!((t::U7 - t::U1000) % t::U16)>, 1),
    ("t::U16 % t::U1", num::<tyeval!(t::U16 % t::U1)>, 0),
    ("(t::U16 % t::U1) | (t::U21 + t::U21)", num::<tyeval!((t::U16 % t::U1) | (t::U21 + t::U21))>, 42),
    ("t::U1 + t::U16", num::<tyeval!(t::U1 + t::U16)>, 17),
    ("t::U8 - t::U1000", num::<tyeval!(t::U8 - t::U1000)>, 992),
    ("((!((t::U100 & t::U0) == (t::U21 | t::U7))) ? (t::U1000 | t::U16) : (t::U64 & t::U64)) + ((t::U16 - t::U16) | (t::U100 - t::U16))", num::<tyeval!(((!((t::U100 & t::U0) == (t::U21 | t::U7))) ? (t::U1000 | t::U16) : (t::U64 & t::U64)) + ((t::U16 - t::U16) | (t::U100 - t::U16)))>, 1100),
    ("(t::U3 | t::U2) - (t::U1 | t::U0)", num::<tyeval!((t::U3 | t::U2) - (t::U1 | t::U0))>, 2),
    ("t::U1 - t::U1000", num::<tyeval!(t::U1 - t::U1000)>, 999),
    ("t::U64", num::<tyeval!(t::U64)>, 64),
    ("(((t::U16 - t::U1000) == (t::U16 - t::U1000)) ? ((t::U21 == t::U21) ? t::U8 : t::U8) : (t::U256 | t::U1)) - t::U3", num::<tyeval!((((t::U16 - t::U1000) == (t::U16 - t::U1000)) ? ((t::U21 == t::U21) ? t::U8 : t::U8) : (t::U256 | t::U1)) - t::U3)>, 5),
    ("(((t::U21 | t::U1) == ((!(t::U21 == t::U8)) ? t::U1 : t::U8)) ? (t::U0 | t::U8) : (t::U21 | t::U1)) - t::U1", num::<tyeval!((((t::U21 | t::U1) == ((!(t::U21 == t::U8)) ? t::U1 : t::U8)) ? (t::U0 | t::U8) : (t::U21 | t::U1)) - t::U1)>, 20),
    ("((t::U5 + t::U0) + t::U16) | (((t::U7 | t::U1) == ((!(t::U256 == t::U64)) ? t::U8 : t::U256)) ? (t::U1 & t::U0) : (t::U256 - t::U255))", num::<tyeval!(((t::U5 + t::U0) + t::U16) | (((t::U7 | t::U1) == ((!(t::U256 == t::U64)) ? t::U8 : t::U256)) ? (t::U1 & t::U0) : (t::U256 - t::U255)))>, 21),
    ("((t::U21 - t::U1) & (t::U5 | t::U1)) % t::U4", num::<tyeval!(((t::U21 - t::U1) & (t::U5 | t::U1)) % t::U4)>, 0),
    ("(t::U100 % t::U2) | ((t::U2 == t::U7) ? t::U21 : t::U255)", num::<tyeval!((t::U100 % t::U2) | ((t::U2 == t::U7) ? t::U21 : t::U255))>, 255),
    ("t::U8", num::<tyeval!(t::U8)>, 8),
    ("t::U8 + (t::U5 - t::U3)", num::<tyeval!(t::U8 + (t::U5 - t::U3))>, 10),
    ("((t::U5 & t::U5) == (t::U5 & t::U5)) ? (t::U8 + t::U1) : (t::U1000 + t::U1)", num::<tyeval!(((t::U5 & t::U5) == (t::U5 & t::U5)) ? (t::U8 + t::U1) : (t::U1000 + t::U1))>, 9),
    ("(t::U8 + t::U3) + (t::U64 & t::U100)", num::<tyeval!((t::U8 + t::U3) + (t::U64 & t::U100))>, 75),
    ("((!(((t::U8 == t::U256) ? t::U100 : t::U8) == ((t::U8 == t::U256) ? t::U100 : t::U8))) ? ((t::U21 == t::U21) ? t::U21 : t::U7) : (t::U7 % t::U8)) | ((t::U255 - t::U7) % t::U2)", num::<tyeval!(((!(((t::U8 == t::U256) ? t::U100 : t::U8) == ((t::U8 == t::U256) ? t::U100 : t::U8))) ? ((t::U21 == t::U21) ? t::U21 : t::U7) : (t::U7 % t::U8)) | ((t::U255 - t::U7) % t::U2))>, 7),
    ("(t::U16 % t::U128) - (t::U1 & t::U1000)", num::<tyeval!((t::U16 % t::U128) - (t::U1 & t::U1000))>, 16),
    ("((t::U7 - t::U3) % t::U1) % t::U128", num::<tyeval!(((t::U7 - t::U3) % t::U1) % t::U128)>, 0),
    ("((((t::U255 == t::U100) ? t::U1000 : t::U64) == t::U1) ? (t::U100 & t::U1) : (t::U5 | t::U3)) - ((t::U255 + t::U1000) + (t::U255 | t::U8))", num::<tyeval!(((((t::U255 == t::U100) ? t::U1000 : t::U64) == t::U1) ? (t::U100 & t::U1) : (t::U5 | t::U3)) - ((t::U255 + t::U1000) + (t::U255 | t::U8)))>, 1503),
    ("((!(t::U64 == t::U64)) ? t::U5 : t::U16) % t::U128", num::<tyeval!(((!(t::U64 == t::U64)) ? t::U5 : t::U16) % t::U128)>, 16),
    ("t::U1000 - t::U7", num::<tyeval!(t::U1000 - t::U7)>, 993),
    ("t::U1", num::<tyeval!(t::U1)>, 1),
    ("((t::U1 & t::U100) | (t::U2 & t::U2)) - (((t::U21 - t::U256) == (t::U64 | t::U7)) ? (t::U255 + t::U5) : ((!(t::U1 == t::U2)) ? t::U1000 : t::U256))", num::<tyeval!(((t::U1 & t::U100) | (t::U2 & t::U2)) - (((t::U21 - t::U256) == (t::U64 | t::U7)) ? (t::U255 + t::U5) : ((!(t::U1 == t::U2)) ? t::U1000 : t::U256)))>, 998),
    ("t::U2 | t::U1", num::<tyeval!(t::U2 | t::U1)>, 3),
    ("t::U100", num::<tyeval!(t::U100)>, 100),
    ("(!((t::U2 + t::U16) == (t::U2 + t::U16))) ? (t::U100 & t::U5) : ((!(t::U256 == t::U256)) ? t::U7 : t::U5)", num::<tyeval!((!((t::U2 + t::U16) == (t::U2 + t::U16))) ? (t::U100 & t::U5) : ((!(t::U256 == t::U256)) ? t::U7 : t::U5))>, 5),
    ("t::U1000", num::<tyeval!(t::U1000)>, 1000),
    ("(((t::U8 == t::U21) ? t::U21 : t::U100) - ((t::U1000 == t::U5) ? t::U1 : t::U255)) | ((t::U64 + t::U5) - ((t::U0 == t::U2) ? t::U255 : t::U7))", num::<tyeval!((((t::U8 == t::U21) ? t::U21 : t::U100) - ((t::U1000 == t::U5) ? t::U1 : t::U255)) | ((t::U64 + t::U5) - ((t::U0 == t::U2) ? t::U255 : t::U7)))>, 191),
    ("((t::U1000 + t::U5) - ((t::U3 == t::U3) ? t::U1000 : t::U64)) & ((t::U256 + t::U7) + (t::U256 & t::U5))", num::<tyeval!(((t::U1000 + t::U5) - ((t::U3 == t::U3) ? t::U1000 : t::U64)) & ((t::U256 + t::U7) + (t::U256 & t::U5)))>, 5),
    ("t::U5", num::<tyeval!(t::U5)>, 5),
    ("(t::U7 + t::U256) & (t::U21 - t::U3)", num::<tyeval!((t::U7 + t::U256) & (t::U21 - t::U3))>, 2),
    ("t::U0 & t::U1", num::<tyeval!(t::U0 & t::U1)>, 0),
    ("(t::U1000 % t::U16) % t::U2", num::<tyeval!((t::U1000 % t::U16) % t::U2)>, 0),
    ("(!(t::U64 == ((t::U3 - t::U64) % t::U128))) ? t::U0 : (((t::U7 == t::U5) ? t::U256 : t::U100) % t::U16)", num::<tyeval!((!(t::U64 == ((t::U3 - t::U64) % t::U128))) ? t::U0 : (((t::U7 == t::U5) ? t::U256 : t::U100) % t::U16))>, 0),
    ("((t::U2 + t::U8) | ((t::U8 == t::U16) ? t::U256 : t::U1)) % t::U128", num::<tyeval!(((t::U2 + t::U8) | ((t::U8 == t::U16) ? t::U256 : t::U1)) % t::U128)>, 11),
    ("(t::U7 == t::U0) ? t::U1 : t::U0", num::<tyeval!((t::U7 == t::U0) ? t::U1 : t::U0)>, 0),
    ("t::U2 + t::U2", num::<tyeval!(t::U2 + t::U2)>, 4),
    ("t::U0", num::<tyeval!(t::U0)>, 0),
    ("(!((t::U7 + t::U1000) == (t::U5 - t::U2))) ? ((t::U64 == t::U16) ? t::U1000 : t::U21) : (t::U5 - t::U256)", num::<tyeval!((!((t::U7 + t::U1000) == (t::U5 - t::U2))) ? ((t::U64 == t::U16) ? t::U1000 : t::U21) : (t::U5 - t::U256))>, 21),
    ("t::U1000 - t::U3", num::<tyeval!(t::U1000 - t::U3)>, 997),
    ("((t::U7 & t::U16) == (t::U100 % t::U2)) ? (t::U3 % t::U1) : (t::U64 - t::U64)", num::<tyeval!(((t::U7 & t::U16) == (t::U100 % t::U2)) ? (t::U3 % t::U1) : (t::U64 - t::U64))>, 0),
    ("(t::U100 & t::U0) + t::U256", num::<tyeval!((t::U100 & t::U0) + t::U256)>, 256),
    ("t::U7", num::<tyeval!(t::U7)>, 7),
    ("((t::U100 & t::U8) & (t::U21 & t::U1000)) + ((t::U16 | t::U256) | ((t::U2 == t::U2) ? t::U16 : t::U1000))", num::<tyeval!(((t::U100 & t::U8) & (t::U21 & t::U1000)) + ((t::U16 | t::U256) | ((t::U2 == t::U2) ? t::U16 : t::U1000)))>, 272),
    ("t::U3", num::<tyeval!(t::U3)>, 3),
    ("(!(((t::U256 == t::U0) ? t::U8 : t::U8) == ((t::U256 == t::U0) ? t::U8 : t::U8))) ? (t::U2 + t::U256) : t::U16", num::<tyeval!((!(((t::U256 == t::U0) ? t::U8 : t::U8) == ((t::U256 == t::U0) ? t::U8 : t::U8))) ? (t::U2 + t::U256) : t::U16)>, 16),
    ("(t::U2 == t::U64) ? t::U7 : t::U7", num::<tyeval!((t::U2 == t::U64) ? t::U7 : t::U7)>, 7),
    ("(t::U2 & t::U16) % t::U4", num::<tyeval!((t::U2 & t::U16) % t::U4)>, 0),
    ("t::U7", num::<tyeval!(t::U7)>, 7),
    ("t::U2", num::<tyeval!(t::U2)>, 2),
    ("t::U7 + t::U256", num::<tyeval!(t::U7 + t::U256)>, 263),
    ("t::U100 | t::U16", num::<tyeval!(t::U100 | t::U16)>, 116),
    ("t::U255 | t::U255", num::<tyeval!(t::U255 | t::U255)>, 255),
    ("t::U7 | (t::U7 & t::U2)", num::<tyeval!(t::U7 | (t::U7 & t::U2))>, 7),
    ("(t::U2 - t::U5) % t::U16", num::<tyeval!((t::U2 - t::U5) % t::U16)>, 3),
    ("(((t::U64 + t::U7) == (t::U5 - t::U16)) ? (t::U1 | t::U256) : t::U21) | ((t::U21 - t::U1000) & ((t::U0 == t::U100) ? t::U2 : t::U3))", num::<tyeval!((((t::U64 + t::U7) == (t::U5 - t::U16)) ? (t::U1 | t::U256) : t::U21) | ((t::U21 - t::U1000) & ((t::U0 == t::U100) ? t::U2 : t::U3)))>, 23),
    ("((t::U16 % t::U8) % t::U128) & t::U2", num::<tyeval!(((t::U16 % t::U8) % t::U128) & t::U2)>, 0),
    ("(((t::U64 | t::U3) == t::U7) ? (t::U1 % t::U4) : (t::U3 - t::U256)) % t::U8", num::<tyeval!((((t::U64 | t::U3) == t::U7) ? (t::U1 % t::U4) : (t::U3 - t::U256)) % t::U8)>, 5),
    ("(t::U64 | t::U16) % t::U128", num::<tyeval!((t::U64 | t::U16) % t::U128)>, 80),
    ("(t::U100 == (t::U100 & t::U5)) ? (t::U100 | t::U7) : ((t::U16 == t::U16) ? t::U16 : t::U2)", num::<tyeval!((t::U100 == (t::U100 & t::U5)) ? (t::U100 | t::U7) : ((t::U16 == t::U16) ? t::U16 : t::U2))>, 16),
    ("((t::U256 + t::U1000) & (t::U0 & t::U5)) - (((!(t::U21 == t::U100)) ? t::U0 : t::U1000) - (t::U16 % t::U2))", num::<tyeval!(((t::U256 + t::U1000) & (t::U0 & t::U5)) - (((!(t::U21 == t::U100)) ? t::U0 : t::U1000) - (t::U16 % t::U2)))>, 0),
    ("(t::U5 | t::U3) | ((t::U64 | t::U100) % t::U2)", num::<tyeval!((t::U5 | t::U3) | ((t::U64 | t::U100) % t::U2))>, 7),
    ("(t::U16 - t::U3) | (t::U21 % t::U1)", num::<tyeval!((t::U16 - t::U3) | (t::U21 % t::U1))>, 13),
    ("t::U1000 - ((t::U5 & t::U16) - ((t::U8 == t::U8) ? t::U21 : t::U8))", num::<tyeval!(t::U1000 - ((t::U5 & t::U16) - ((t::U8 == t::U8) ? t::U21 : t::U8)))>, 979),
    ("((t::U2 | t::U2) | (t::U2 - t::U7)) % t::U128", num::<tyeval!(((t::U2 | t::U2) | (t::U2 - t::U7)) % t::U128)>, 7),
    ("(t::U7 % t::U4) + t::U1000", num::<tyeval!((t::U7 % t::U4) + t::U1000)>, 1003),
    ("((t::U8 + t::U16) == (t::U1000 + t::U255)) ? (t::U1000 & t::U255) : (t::U1000 + t::U1000)", num::<tyeval!(((t::U8 + t::U16) == (t::U1000 + t::U255)) ? (t::U1000 & t::U255) : (t::U1000 + t::U1000))>, 2000),
    ("((t::U100 | t::U0) + t::U256) % t::U8", num::<tyeval!(((t::U100 | t::U0) + t::U256) % t::U8)>, 4),
    ("t::U3", num::<tyeval!(t::U3)>, 3),
    ("t::U5", num::<tyeval!(t::U5)>, 5),
    ("((t::U1 & t::U1000) | ((!(t::U7 == t::U255)) ? t::U21 : t::U1)) | ((((t::U255 == t::U5) ? t::U8 : t::U8) == ((t::U255 == t::U5) ? t::U8 : t::U8)) ? (t::U7 | t::U255) : (t::U64 % t::U128))", num::<tyeval!(((t::U1 & t::U1000) | ((!(t::U7 == t::U255)) ? t::U21 : t::U1)) | ((((t::U255 == t::U5) ? t::U8 : t::U8) == ((t::U255 == t::U5) ? t::U8 : t::U8)) ? (t::U7 | t::U255) : (t::U64 % t::U128)))>, 255),
    ("t::U16 | t::U16", num::<tyeval!(t::U16 | t::U16)>, 16),
    ("(!(((t::U256 + t::U16) - ((t::U64 == t::U64) ? t::U1000 : t::U2)) == ((t::U256 + t::U16) - ((t::U64 == t::U64) ? t::U1000 : t::U2)))) ? ((((t::U16 == t::U16) ? t::U1 : t::U64) == ((t::U16 == t::U16) ? t::U1 : t::U64)) ? (t::U7 + t::U16) : (t::U16 - t::U2)) : (((t::U100 == t::U7) ? t::U7 : t::U64) & t::U7)", num::<tyeval!((!(((t::U256 + t::U16) - ((t::U64 == t::U64) ? t::U1000 : t::U2)) == ((t::U256 + t::U16) - ((t::U64 == t::U64) ? t::U1000 : t::U2)))) ? ((((t::U16 == t::U16) ? t::U1 : t::U64) == ((t::U16 == t::U16) ? t::U1 : t::U64)) ? (t::U7 + t::U16) : (t::U16 - t::U2)) : (((t::U100 == t::U7) ? t::U7 : t::U64) & t::U7))>, 0),
    ("t::U255", num::<tyeval!(t::U255)>, 255),
    ("(t::U100 - t::U64) | t::U256", num::<tyeval!((t::U100 - t::U64) | t::U256)>, 292),
    ("t::U0 | t::U100", num::<tyeval!(t::U0 | t::U100)>, 100),
    ("t::U7", num::<tyeval!(t::U7)>, 7),
    ("(((t::U16 == t::U64) ? t::U100 : t::U2) & (t::U5 | t::U5)) % t::U16", num::<tyeval!((((t::U16 == t::U64) ? t::U100 : t::U2) & (t::U5 | t::U5)) % t::U16)>, 0),
    ("((!(t::U64 == t::U64)) ? t::U5 : t::U1) | (t::U2 - t::U64)", num::<tyeval!(((!(t::U64 == t::U64)) ? t::U5 : t::U1) | (t::U2 - t::U64))>, 63),
    ("(t::U1 % t::U2) + ((!(t::U255 == t::U100)) ? t::U1000 : t::U21)", num::<tyeval!((t::U1 % t::U2) + ((!(t::U255 == t::U100)) ? t::U1000 : t::U21))>, 1001),
    ("t::U100", num::<tyeval!(t::U100)>, 100),
    ("t::U64 & t::U8", num::<tyeval!(t::U64 & t::U8)>, 0),
    ("((t::U1000 + t::U100) - (t::U16 % t::U4)) + ((t::U1 + t::U255) & (t::U256 - t::U3))", num::<tyeval!(((t::U1000 + t::U100) - (t::U16 % t::U4)) + ((t::U1 + t::U255) & (t::U256 - t::U3)))>, 1100),
    ("((t::U16 + t::U2) | t::U5) & ((t::U7 == (t::U5 | t::U5)) ? (t::U2 % t::U4) : (t::U256 + t::U256))", num::<tyeval!(((t::U16 + t::U2) | t::U5) & ((t::U7 == (t::U5 | t::U5)) ? (t::U2 % t::U4) : (t::U256 + t::U256)))>, 0),
    ("(t::U1000 & t::U16) & t::U64", num::<tyeval!((t::U1000 & t::U16) & t::U64)>, 0),
    ("t::U7 - t::U256", num::<tyeval!(t::U7 - t::U256)>, 249),
    ("t::U64 & (t::U8 & t::U100)", num::<tyeval!(t::U64 & (t::U8 & t::U100))>, 0),
    ("((t::U64 | t::U16) + (t::U1 & t::U2)) + (((t::U255 == t::U255) ? t::U16 : t::U1000) | (t::U256 - t::U255))", num::<tyeval!(((t::U64 | t::U16) + (t::U1 & t::U2)) + (((t::U255 == t::U255) ? t::U16 : t::U1000) | (t::U256 - t::U255)))>, 97),
    ("t::U16 | t::U0", num::<tyeval!(t::U16 | t::U0)>, 16),
    ("(t::U21 | t::U0) - ((t::U21 == t::U3) ? t::U256 : t::U21)", num::<tyeval!((t::U21 | t::U0) - ((t::U21 == t::U3) ? t::U256 : t::U21))>, 0),
    ("((t::U1000 % t::U1) - (t::U100 | t::U255)) & ((t::U5 & t::U21) & (t::U5 & t::U16))", num::<tyeval!(((t::U1000 % t::U1) - (t::U100 | t::U255)) & ((t::U5 & t::U21) & (t::U5 & t::U16)))>, 0),
    ("(t::U3 + t::U100) - ((t::U16 == t::U16) ? t::U256 : t::U8)", num::<tyeval!((t::U3 + t::U100) - ((t::U16 == t::U16) ? t::U256 : t::U8))>, 153),
    ("((!((t::U7 & t::U100) == (t::U2 % t::U16))) ? (t::U0 % t::U128) : t::U1) + ((t::U0 == t::U0) ? (t::U2 | t::U255) : (t::U1 - t::U64))", num::<tyeval!(((!((t::U7 & t::U100) == (t::U2 % t::U16))) ? (t::U0 % t::U128) : t::U1) + ((t::U0 == t::U0) ? (t::U2 | t::U255) : (t::U1 - t::U64)))>, 255),
    ("((t::U64 & t::U5) | (t::U255 | t::U3)) - ((t::U100 & t::U3) & (t::U64 % t::U4))", num::<tyeval!(((t::U64 & t::U5) | (t::U255 | t::U3)) - ((t::U100 & t::U3) & (t::U64 % t::U4)))>, 255),
    ("(((t::U256 | t::U7) == (t::U256 | t::U7)) ? (t::U8 & t::U21) : (t::U255 | t::U1000)) | ((!(((t::U8 == t::U8) ? t::U1 : t::U8) == t::U256)) ? (t::U1 & t::U7) : (t::U21 & t::U7))", num::<tyeval!((((t::U256 | t::U7) == (t::U256 | t::U7)) ? (t::U8 & t::U21) : (t::U255 | t::U1000)) | ((!(((t::U8 == t::U8) ? t::U1 : t::U8) == t::U256)) ? (t::U1 & t::U7) : (t::U21 & t::U7)))>, 1),
    ("((t::U3 & t::U64) | ((!(t::U16 == t::U3)) ? t::U1 : t::U5)) + ((t::U16 % t::U2) | (t::U7 & t::U255))", num::<tyeval!(((t::U3 & t::U64) | ((!(t::U16 == t::U3)) ? t::U1 : t::U5)) + ((t::U16 % t::U2) | (t::U7 & t::U255)))>, 8),
    ("(t::U0 & t::U2) + (t::U8 + t::U256)", num::<tyeval!((t::U0 & t::U2) + (t::U8 + t::U256))>, 264),
    ("((t::U0 + t::U5) - (t::U16 & t::U8)) | ((t::U1 | t::U1000) + (t::U1000 & t::U7))", num::<tyeval!(((t::U0 + t::U5) - (t::U16 & t::U8)) | ((t::U1 | t::U1000) + (t::U1000 & t::U7)))>, 1005),
    ("(!((t::U1000 | t::U1000) == ((t::U5 == t::U0) ? t::U21 : t::U8))) ? (t::U1 | t::U1) : (t::U100 % t::U1)", num::<tyeval!((!((t::U1000 | t::U1000) == ((t::U5 == t::U0) ? t::U21 : t::U8))) ? (t::U1 | t::U1) : (t::U100 % t::U1))>, 1),
    ("t::U64 | t::U1000", num::<tyeval!(t::U64 | t::U1000)>, 1000),
    ("(t::U7 % t::U8) | (t::U16 - t::U0)", num::<tyeval!((t::U7 % t::U8) | (t::U16 - t::U0))>, 23),
    ("t::U3 - t::U21", num::<tyeval!(t::U3 - t::U21)>, 18),
    ("(((t::U1000 == t::U7) ? t::U2 : t::U2) - (t::U1 + t::U255)) | ((t::U1000 & t::U1000) % t::U8)", num::<tyeval!((((t::U1000 == t::U7) ? t::U2 : t::U2) - (t::U1 + t::U255)) | ((t::U1000 & t::U1000) % t::U8))>, 254),
    ("t::U256", num::<tyeval!(t::U256)>, 256),
    ("(t::U0 | t::U64) | (t::U7 % t::U4)", num::<tyeval!((t::U0 | t::U64) | (t::U7 % t::U4))>, 67),
    ("(t::U1 % t::U4) - t::U3", num::<tyeval!((t::U1 % t::U4) - t::U3)>, 2),
    ("((!((t::U16 + t::U7) == (t::U16 + t::U7))) ? (t::U5 - t::U2) : (t::U256 | t::U3)) % t::U2", num::<tyeval!(((!((t::U16 + t::U7) == (t::U16 + t::U7))) ? (t::U5 - t::U2) : (t::U256 | t::U3)) % t::U2)>, 1),
    ("(t::U16 == t::U256) ? t::U0 : t::U64", num::<tyeval!((t::U16 == t::U256) ? t::U0 : t::U64)>, 64),
    ("t::U0 - t::U0", num::<tyeval!(t::U0 - t::U0)>, 0),
    ("(t::U256 - t::U1000) - ((t::U64 == t::U5) ? t::U100 : t::U0)", num::<tyeval!((t::U256 - t::U1000) - ((t::U64 == t::U5) ? t::U100 : t::U0))>, 744),
    ("(t::U255 | t::U0) - (t::U2 | t::U8)", num::<tyeval!((t::U255 | t::U0) - (t::U2 | t::U8))>, 245),
    ("(((!(t::U5 == t::U0)) ? t::U5 : t::U64) % t::U16) & (t::U255 % t::U4)", num::<tyeval!((((!(t::U5 == t::U0)) ? t::U5 : t::U64) % t::U16) & (t::U255 % t::U4))>, 1),
    ("(t::U0 + t::U64) % t::U8", num::<tyeval!((t::U0 + t::U64) % t::U8)>, 0),
    ("t::U100", num::<tyeval!(t::U100)>, 100),
    ("((t::U16 == t::U16) ? t::U7 : t::U8) % t::U16", num::<tyeval!(((t::U16 == t::U16) ? t::U7 : t::U8) % t::U16)>, 7),
    ("(t::U7 % t::U8) | t::U1000", num::<tyeval!((t::U7 % t::U8) | t::U1000)>, 1007),
    ("t::U1", num::<tyeval!(t::U1)>, 1),
    ("t::U255", num::<tyeval!(t::U255)>, 255),
    ("t::U1000", num::<tyeval!(t::U1000)>, 1000),
    ("((t::U21 - t::U1) & (t::U255 - t::U16)) & ((t::U255 | t::U1) & (t::U16 % t::U16))", num::<tyeval!(((t::U21 - t::U1) & (t::U255 - t::U16)) & ((t::U255 | t::U1) & (t::U16 % t::U16)))>, 0),
    ("((t::U1000 & t::U255) & (t::U3 + t::U16)) | ((t::U255 % t::U128) - (t::U5 & t::U255))", num::<tyeval!(((t::U1000 & t::U255) & (t::U3 + t::U16)) | ((t::U255 % t::U128) - (t::U5 & t::U255)))>, 122),
    ("((t::U7 & t::U2) | (t::U8 - t::U64)) | ((t::U0 + t::U8) | (t::U256 & t::U0))", num::<tyeval!(((t::U7 & t::U2) | (t::U8 - t::U64)) | ((t::U0 + t::U8) | (t::U256 & t::U0)))>, 58),
    ("t::U8 & ((t::U0 - t::U255) % t::U1)", num::<tyeval!(t::U8 & ((t::U0 - t::U255) % t::U1))>, 0),
    ("(t::U3 & ((t::U256 == t::U5) ? t::U64 : t::U7)) - ((t::U2 % t::U1) + (t::U256 + t::U100))", num::<tyeval!((t::U3 & ((t::U256 == t::U5) ? t::U64 : t::U7)) - ((t::U2 % t::U1) + (t::U256 + t::U100)))>, 353),
    ("(t::U100 - t::U1) + (t::U16 + t::U21)", num::<tyeval!((t::U100 - t::U1) + (t::U16 + t::U21))>, 136),
    ("t::U16", num::<tyeval!(t::U16)>, 16),
    ("t::U8 - t::U8", num::<tyeval!(t::U8 - t::U8)>, 0),
    ("t::U16 | t::U21", num::<tyeval!(t::U16 | t::U21)>, 21),
    ("(t::U100 - t::U255) & ((t::U64 == t::U3) ? t::U255 : t::U100)", num::<tyeval!((t::U100 - t::U255) & ((t::U64 == t::U3) ? t::U255 : t::U100))>, 0),
    ("((t::U2 | t::U16) & ((!(t::U5 == t::U5)) ? t::U255 : t::U7)) & ((t::U7 + t::U1000) % t::U16)", num::<tyeval!(((t::U2 | t::U16) & ((!(t::U5 == t::U5)) ? t::U255 : t::U7)) & ((t::U7 + t::U1000) % t::U16))>, 2),
    ("(t::U21 - t::U100) - (t::U1000 % t::U2)", num::<tyeval!((t::U21 - t::U100) - (t::U1000 % t::U2))>, 79),
    ("t::U256", num::<tyeval!(t::U256)>, 256),
    ("(t::U8 % t::U16) | (t::U255 + t::U2)", num::<tyeval!((t::U8 % t::U16) | (t::U255 + t::U2))>, 265),
    ("(t::U3 + t::U1) + (t::U1000 - t::U3)", num::<tyeval!((t::U3 + t::U1) + (t::U1000 - t::U3))>, 1001),
    ("t::U256 % t::U1", num::<tyeval!(t::U256 % t::U1)>, 0),
    ("t::U2 & t::U3", num::<tyeval!(t::U2 & t::U3)>, 2),
    ("(t::U256 & t::U8) & (t::U256 + t::U7)", num::<tyeval!((t::U256 & t::U8) & (t::U256 + t::U7))>, 0),
    ("(t::U64 % t::U16) + ((t::U21 + t::U0) - (t::U16 % t::U1))", num::<tyeval!((t::U64 % t::U16) + ((t::U21 + t::U0) - (t::U16 % t::U1)))>, 21),
    ("(t::U1000 % t::U16) & (t::U3 | t::U21)", num::<tyeval!((t::U1000 % t::U16) & (t::U3 | t::U21))>, 0),
    ("((t::U1 + t::U3) | (t::U0 & t::U255)) + ((!(t::U100 == t::U100)) ? (t::U7 & t::U7) : (t::U0 % t::U128))", num::<tyeval!(((t::U1 + t::U3) | (t::U0 & t::U255)) + ((!(t::U100 == t::U100)) ? (t::U7 & t::U7) : (t::U0 % t::U128)))>, 4),
    ("(t::U100 + t::U21) % t::U8", num::<tyeval!((t::U100 + t::U21) % t::U8)>, 1),
    ("(t::U8 % t::U8) % t::U4", num::<tyeval!((t::U8 % t::U8) % t::U4)>, 0),
    ("t::U21", num::<tyeval!(t::U21)>, 21),
    ("t::U5 - ((t::U255 == t::U255) ? t::U100 : t::U64)", num::<tyeval!(t::U5 - ((t::U255 == t::U255) ? t::U100 : t::U64))>, 95),
    ("t::U7 & t::U0", num::<tyeval!(t::U7 & t::U0)>, 0),
    ("((((!(t::U64 == t::U64)) ? t::U2 : t::U3) == (t::U2 % t::U1)) ? t::U3 : (t::U5 + t::U100)) % t::U1", num::<tyeval!(((((!(t::U64 == t::U64)) ? t::U2 : t::U3) == (t::U2 % t::U1)) ? t::U3 : (t::U5 + t::U100)) % t::U1)>, 0),
    ("(t::U8 - t::U3) % t::U1", num::<tyeval!((t::U8 - t::U3) % t::U1)>, 0),
    ("(t::U1 == t::U16) ? t::U100 : t::U100", num::<tyeval!((t::U1 == t::U16) ? t::U100 : t::U100)>, 100),
    ("(t::U100 + ((!(t::U3 == t::U3)) ? t::U64 : t::U1000)) | ((t::U21 - t::U2) & (t::U100 % t::U2))", num::<tyeval!((t::U100 + ((!(t::U3 == t::U3)) ? t::U64 : t::U1000)) | ((t::U21 - t::U2) & (t::U100 % t::U2)))>, 1100),
    ("t::U256 | (t::U5 & t::U0)", num::<tyeval!(t::U256 | (t::U5 & t::U0))>, 256),
    ("t::U256 - ((t::U1000 - t::U1000) & (t::U3 | t::U2))", num::<tyeval!(t::U256 - ((t::U1000 - t::U1000) & (t::U3 | t::U2)))>, 256),
    ("((t::U0 | t::U256) - ((!(t::U3 == t::U3)) ? t::U1 : t::U3)) | (((t::U16 | t::U21) == (t::U16 | t::U21)) ? ((t::U0 == t::U255) ? t::U256 : t::U7) : (t::U64 | t::U1))", num::<tyeval!(((t::U0 | t::U256) - ((!(t::U3 == t::U3)) ? t::U1 : t::U3)) | (((t::U16 | t::U21) == (t::U16 | t::U21)) ? ((t::U0 == t::U255) ? t::U256 : t::U7) : (t::U64 | t::U1)))>, 255),
    ("(t::U8 & t::U1) - t::U64", num::<tyeval!((t::U8 & t::U1) - t::U64)>, 64),
    ("(t::U7 & t::U256) + ((t::U0 == t::U0) ? t::U64 : t::U8)", num::<tyeval!((t::U7 & t::U256) + ((t::U0 == t::U0) ? t::U64 : t::U8))>, 64),
    ("((t::U64 - t::U100) | t::U7) - (((!(t::U21 == t::U21)) ? t::U1000 : t::U64) % t::U16)", num::<tyeval!(((t::U64 - t::U100) | t::U7) - (((!(t::U21 == t::U21)) ? t::U1000 : t::U64) % t::U16))>, 39),
    ("t::U3 & (t::U1000 - t::U16)", num::<tyeval!(t::U3 & (t::U1000 - t::U16))>, 0),
    ("t::U7", num::<tyeval!(t::U7)>, 7),
    ("t::U16 % t::U1", num::<tyeval!(t::U16 % t::U1)>, 0),
    ("t::U5 + (t::U0 - (t::U3 + t::U21))", num::<tyeval!(t::U5 + (t::U0 - (t::U3 + t::U21)))>, 29),
    ("t::U1000", num::<tyeval!(t::U1000)>, 1000),
    ("!((t::U0 % t::U16) == (((t::U5 - t::U0) == (t::U5 - t::U0)) ? (t::U16 & t::U1000) : (t::U100 - t::U3)))", boolean::<tyeval!(!((t::U0 % t::U16) == (((t::U5 - t::U0) == (t::U5 - t::U0)) ? (t::U16 & t::U1000) : (t::U100 - t::U3))))>, 0),
    ("t::U256 == t::U256", boolean::<tyeval!(t::U256 == t::U256)>, 1),
    ("!((t::U5 & t::U0) == (t::U5 & t::U0))", boolean::<tyeval!(!((t::U5 & t::U0) == (t::U5 & t::U0)))>, 0),
    ("t::U16 == t::U1000", boolean::<tyeval!(t::U16 == t::U1000)>, 0),
    ("!(((t::U16 == t::U16) ? (t::U1 | t::U1) : (t::U255 + t::U21)) == t::U8)", boolean::<tyeval!(!(((t::U16 == t::U16) ? (t::U1 | t::U1) : (t::U255 + t::U21)) == t::U8))>, 1),
    ("(t::U7 | t::U8) == (t::U7 | t::U8)", boolean::<tyeval!((t::U7 | t::U8) == (t::U7 | t::U8))>, 1),
    ("!((t::U16 | t::U7) == (t::U16 | t::U7))", boolean::<tyeval!(!((t::U16 | t::U7) == (t::U16 | t::U7)))>, 0),
    ("!(((t::U16 & t::U8) | t::U21) == ((t::U16 & t::U8) | t::U21))", boolean::<tyeval!(!(((t::U16 & t::U8) | t::U21) == ((t::U16 & t::U8) | t::U21)))>, 0),
    ("t::U3 == t::U3", boolean::<tyeval!(t::U3 == t::U3)>, 1),
    ("(t::U256 + t::U5) == (t::U7 - t::U1)", boolean::<tyeval!((t::U256 + t::U5) == (t::U7 - t::U1))>, 0),
    ("t::U64 == t::U64", boolean::<tyeval!(t::U64 == t::U64)>, 1),
    ("t::U100 == t::U21", boolean::<tyeval!(t::U100 == t::U21)>, 0),
    ("((!(t::U100 == t::U0)) ? t::U8 : t::U2) == (t::U256 - t::U7)", boolean::<tyeval!(((!(t::U100 == t::U0)) ? t::U8 : t::U2) == (t::U256 - t::U7))>, 0),
    ("t::U5 == t::U5", boolean::<tyeval!(t::U5 == t::U5)>, 1),
    ("t::U64 == t::U3", boolean::<tyeval!(t::U64 == t::U3)>, 0),
    ("((t::U1 % t::U1) % t::U1) == ((t::U1 % t::U1) % t::U1)", boolean::<tyeval!(((t::U1 % t::U1) % t::U1) == ((t::U1 % t::U1) % t::U1))>, 1),
    ("!(t::U16 == t::U16)", boolean::<tyeval!(!(t::U16 == t::U16))>, 0),
    ("t::U256 == t::U2", boolean::<tyeval!(t::U256 == t::U2)>, 0),
    ("((t::U100 == t::U7) ? t::U21 : t::U5) == ((t::U100 == t::U7) ? t::U21 : t::U5)", boolean::<tyeval!(((t::U100 == t::U7) ? t::U21 : t::U5) == ((t::U100 == t::U7) ? t::U21 : t::U5))>, 1),
    ("t::U2 == t::U3", boolean::<tyeval!(t::U2 == t::U3)>, 0),
    ("t::U256 == t::U3", boolean::<tyeval!(t::U256 == t::U3)>, 0),
    ("(t::U16 + t::U16) == (t::U16 + t::U16)", boolean::<tyeval!((t::U16 + t::U16) == (t::U16 + t::U16))>, 1),
    ("((t::U255 % t::U8) - t::U8) == ((t::U255 % t::U8) - t::U8)", boolean::<tyeval!(((t::U255 % t::U8) - t::U8) == ((t::U255 % t::U8) - t::U8))>, 1),
    ("(t::U21 | (t::U8 & t::U1000)) == (t::U21 | (t::U8 & t::U1000))", boolean::<tyeval!((t::U21 | (t::U8 & t::U1000)) == (t::U21 | (t::U8 & t::U1000)))>, 1),
    ("t::U100 == t::U1", boolean::<tyeval!(t::U100 == t::U1)>, 0),
    ("(t::U0 | t::U16) == (t::U0 | t::U16)", boolean::<tyeval!((t::U0 | t::U16) == (t::U0 | t::U16))>, 1),
    ("t::U21 == t::U0", boolean::<tyeval!(t::U21 == t::U0)>, 0),
    ("(t::U16 & t::U16) == t::U100", boolean::<tyeval!((t::U16 & t::U16) == t::U100)>, 0),
    ("t::U8 == t::U8", boolean::<tyeval!(t::U8 == t::U8)>, 1),
    ("((t::U256 & t::U1000) & t::U0) == ((t::U256 & t::U1000) & t::U0)", boolean::<tyeval!(((t::U256 & t::U1000) & t::U0) == ((t::U256 & t::U1000) & t::U0))>, 1),
    ("t::U1 == t::U3", boolean::<tyeval!(t::U1 == t::U3)>, 0),
    ("(t::U16 & (t::U21 & t::U5)) == t::U255", boolean::<tyeval!((t::U16 & (t::U21 & t::U5)) == t::U255)>, 0),
    ("t::U5 == t::U5", boolean::<tyeval!(t::U5 == t::U5)>, 1),
    ("((t::U64 - t::U2) + t::U5) == ((t::U5 + t::U2) | (t::U1000 % t::U16))", boolean::<tyeval!(((t::U64 - t::U2) + t::U5) == ((t::U5 + t::U2) | (t::U1000 % t::U16)))>, 0),
    ("t::U64 == (t::U21 + t::U0)", boolean::<tyeval!(t::U64 == (t::U21 + t::U0))>, 0),
    ("((t::U3 & t::U1) - ((t::U3 == t::U16) ? t::U1 : t::U100)) == (((t::U21 - t::U8) == (t::U21 - t::U8)) ? (t::U3 % t::U4) : t::U1000)", boolean::<tyeval!(((t::U3 & t::U1) - ((t::U3 == t::U16) ? t::U1 : t::U100)) == (((t::U21 - t::U8) == (t::U21 - t::U8)) ? (t::U3 % t::U4) : t::U1000))>, 0),
    ("((t::U1000 | t::U2) % t::U4) == t::U7", boolean::<tyeval!(((t::U1000 | t::U2) % t::U4) == t::U7)>, 0),
    ("!((t::U16 | t::U2) == (t::U16 | t::U2))", boolean::<tyeval!(!((t::U16 | t::U2) == (t::U16 | t::U2)))>, 0),
    ("!(((t::U7 == t::U7) ? t::U16 : t::U64) == (t::U1 + t::U64))", boolean::<tyeval!(!(((t::U7 == t::U7) ? t::U16 : t::U64) == (t::U1 + t::U64)))>, 1),
    ("!(t::U8 == t::U16)", boolean::<tyeval!(!(t::U8 == t::U16))>, 1),
    ("!(t::U64 == t::U100)", boolean::<tyeval!(!(t::U64 == t::U100))>, 1),
    ("t::U64 == t::U0", boolean::<tyeval!(t::U64 == t::U0)>, 0),
    ("(t::U16 & t::U16) == (t::U16 & t::U16)", boolean::<tyeval!((t::U16 & t::U16) == (t::U16 & t::U16))>, 1),
    ("((t::U255 % t::U128) - (t::U2 & t::U64)) == (((t::U256 - t::U0) == (t::U7 & t::U0)) ? (t::U21 & t::U64) : ((t::U3 == t::U8) ? t::U1 : t::U256))", boolean::<tyeval!(((t::U255 % t::U128) - (t::U2 & t::U64)) == (((t::U256 - t::U0) == (t::U7 & t::U0)) ? (t::U21 & t::U64) : ((t::U3 == t::U8) ? t::U1 : t::U256)))>, 0),
    ("(t::U1000 - t::U100) == (t::U100 & t::U100)", boolean::<tyeval!((t::U1000 - t::U100) == (t::U100 & t::U100))>, 0),
    ("!(((t::U2 % t::U4) | t::U2) == ((t::U2 - t::U8) + (t::U8 + t::U256)))", boolean::<tyeval!(!(((t::U2 % t::U4) | t::U2) == ((t::U2 - t::U8) + (t::U8 + t::U256))))>, 1),
    ("(t::U3 - t::U3) == (t::U3 - t::U3)", boolean::<tyeval!((t::U3 - t::U3) == (t::U3 - t::U3))>, 1),
    ("!(t::U5 == ((t::U256 % t::U1) & (t::U8 | t::U21)))", boolean::<tyeval!(!(t::U5 == ((t::U256 % t::U1) & (t::U8 | t::U21))))>, 1),
    ("t::U1000 == t::U64", boolean::<tyeval!(t::U1000 == t::U64)>, 0),
    ("((t::U16 == t::U3) ? t::U21 : t::U5) == ((t::U16 == t::U3) ? t::U21 : t::U5)", boolean::<tyeval!(((t::U16 == t::U3) ? t::U21 : t::U5) == ((t::U16 == t::U3) ? t::U21 : t::U5))>, 1),
    ("((t::U7 % t::U128) + (t::U5 | t::U0)) == ((t::U7 % t::U128) + (t::U5 | t::U0))", boolean::<tyeval!(((t::U7 % t::U128) + (t::U5 | t::U0)) == ((t::U7 % t::U128) + (t::U5 | t::U0)))>, 1),
    ("((t::U5 & t::U2) | ((t::U7 == t::U7) ? t::U100 : t::U1)) == ((t::U5 & t::U2) | ((t::U7 == t::U7) ? t::U100 : t::U1))", boolean::<tyeval!(((t::U5 & t::U2) | ((t::U7 == t::U7) ? t::U100 : t::U1)) == ((t::U5 & t::U2) | ((t::U7 == t::U7) ? t::U100 : t::U1)))>, 1),
    ("(((t::U8 == t::U5) ? t::U8 : t::U255) % t::U2) == ((((!(t::U2 == t::U2)) ? t::U0 : t::U64) == ((!(t::U2 == t::U2)) ? t::U0 : t::U64)) ? (t::U7 + t::U255) : t::U5)", boolean::<tyeval!((((t::U8 == t::U5) ? t::U8 : t::U255) % t::U2) == ((((!(t::U2 == t::U2)) ? t::U0 : t::U64) == ((!(t::U2 == t::U2)) ? t::U0 : t::U64)) ? (t::U7 + t::U255) : t::U5))>, 0),
    ("((t::U100 == t::U2) ? t::U255 : t::U16) == (t::U7 - t::U8)", boolean::<tyeval!(((t::U100 == t::U2) ? t::U255 : t::U16) == (t::U7 - t::U8))>, 0),
    ("(t::U8 - t::U8) == (t::U8 - t::U8)", boolean::<tyeval!((t::U8 - t::U8) == (t::U8 - t::U8))>, 1),
    ("t::U2 == ((t::U3 - t::U5) & (t::U2 & t::U21))", boolean::<tyeval!(t::U2 == ((t::U3 - t::U5) & (t::U2 & t::U21)))>, 0),
    ("(t::U64 + t::U16) == ((t::U21 == t::U21) ? t::U8 : t::U64)", boolean::<tyeval!((t::U64 + t::U16) == ((t::U21 == t::U21) ? t::U8 : t::U64))>, 0),
    ("!((((t::U100 == t::U100) ? t::U7 : t::U0) - (t::U1 | t::U2)) == ((t::U100 == (t::U2 % t::U2)) ? (t::U1 + t::U3) : (t::U3 + t::U1)))", boolean::<tyeval!(!((((t::U100 == t::U100) ? t::U7 : t::U0) - (t::U1 | t::U2)) == ((t::U100 == (t::U2 % t::U2)) ? (t::U1 + t::U3) : (t::U3 + t::U1))))>, 0),
    ("!(t::U5 == t::U1000)", boolean::<tyeval!(!(t::U5 == t::U1000))>, 1),
    ("!((((t::U21 + t::U5) == (t::U21 + t::U5)) ? (t::U1000 & t::U1) : (t::U100 - t::U7)) == (((t::U21 + t::U5) == (t::U21 + t::U5)) ? (t::U1000 & t::U1) : (t::U100 - t::U7)))", boolean::<tyeval!(!((((t::U21 + t::U5) == (t::U21 + t::U5)) ? (t::U1000 & t::U1) : (t::U100 - t::U7)) == (((t::U21 + t::U5) == (t::U21 + t::U5)) ? (t::U1000 & t::U1) : (t::U100 - t::U7))))>, 0),
];
